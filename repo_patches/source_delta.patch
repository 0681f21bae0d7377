From 5071af048ed833c7afd92f0d7879cdeb17125885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:46 +0000
Subject: [PATCH 1/9] fix: keep nested markup verbatim when extracting element
 content

parseElementContent rebuilt nested opening tags from a map, so the order of
attributes in raw results changed from call to call and edit offsets computed
from the rebuilt text did not match the document.
---
 parser.go | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/parser.go b/parser.go
index 2253de1..cefaa32 100644
--- a/parser.go
+++ b/parser.go
@@ -247,7 +247,8 @@ func (p *xmlParser) parseElementName() (string, map[string]string, bool) {
 }
 
 // parseElementContent extracts the content between opening and closing tags
-// Returns the text content, handling nested elements and escaping
+// Returns the content exactly as written in the document, so that it is the same
+// in every run and offsets within it are offsets within the document
 func (p *xmlParser) parseElementContent(elementName string) string {
 	// Track nesting depth to prevent stack overflow attacks
 	p.depth++
@@ -258,11 +259,11 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 	}
 	defer func() { p.depth-- }()
 
-	var content strings.Builder
+	contentStart := p.pos
 	// Track element-specific depth for matching tags
 	elementDepth := 1
 
-	for p.pos < p.dataLen && elementDepth > 0 {
+	for p.pos < p.dataLen {
 		c := p.peek()
 
 		if c == '<' {
@@ -272,6 +273,7 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 
 				if next == '/' {
 					// Closing tag
+					tagStart := p.pos
 					p.next() // skip '<'
 					p.next() // skip '/'
 					closeName := p.readUntil('>')
@@ -286,45 +288,28 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 					if closeName == elementName {
 						elementDepth--
 						if elementDepth == 0 {
-							break
+							return string(p.data[contentStart:tagStart])
 						}
 					}
-					content.WriteString("</")
-					content.WriteString(closeName)
-					content.WriteString(">")
 				} else if next == '!' {
 					// Comment or CDATA - include in content for now
-					content.WriteByte(c)
 					p.next()
 				} else {
 					// Opening tag of nested element
 					p.next() // skip '<'
 					nestedName := p.readUntilAny(" \t\n\r/>")
 
-					// Write the opening tag
-					content.WriteString("<")
-					content.WriteString(nestedName)
-
-					// Parse attributes and check for self-closing
-					attrs := p.parseAttributes()
-					for attrName, attrValue := range attrs {
-						content.WriteString(" ")
-						content.WriteString(attrName)
-						content.WriteString("=\"")
-						content.WriteString(escapeXML(attrValue))
-						content.WriteString("\"")
-					}
+					// Skip attributes and check for self-closing
+					p.parseAttributes()
 
 					isSelfClosing := false
 					if p.peek() == '/' {
 						p.next()
 						isSelfClosing = true
-						content.WriteString("/")
 					}
 
 					if p.peek() == '>' {
 						p.next()
-						content.WriteString(">")
 					}
 
 					// Only increment elementDepth if this is the same element type we're tracking
@@ -333,16 +318,14 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 					}
 				}
 			} else {
-				content.WriteByte(c)
 				p.next()
 			}
 		} else {
-			content.WriteByte(c)
 			p.next()
 		}
 	}
 
-	return content.String()
+	return string(p.data[contentStart:p.pos])
 }
 
 // extractTextContent extracts only text content, stripping out all XML tags
-- 
2.43.0


From 8b8efdce44c8ca1682dd13c593ff20cb527a1682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:08 +0000
Subject: [PATCH 2/9] fix: write attributes of expanded self-closing parents in
 sorted order

Creating a child inside a self-closing element wrote its attributes in map
order, so the same call returned different documents.
---
 builder.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/builder.go b/builder.go
index a79466b..e6330e9 100644
--- a/builder.go
+++ b/builder.go
@@ -492,15 +492,7 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 		b.result.WriteString(elemName)
 
 		// Write attributes if any
-		if len(attrs) > 0 {
-			for k, v := range attrs {
-				b.result.WriteString(" ")
-				b.result.WriteString(k)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(v))
-				b.result.WriteString(`"`)
-			}
-		}
+		b.writeAttributes(attrs)
 
 		b.result.WriteString(">")
 
@@ -590,6 +582,22 @@ func (b *xmlBuilder) createSiblingRoot(path []PathSegment, xmlValue string, isRa
 	return nil
 }
 
+// writeAttributes writes attributes in sorted order for deterministic output
+func (b *xmlBuilder) writeAttributes(attrs map[string]string) {
+	names := make([]string, 0, len(attrs))
+	for name := range attrs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		b.result.WriteString(" ")
+		b.result.WriteString(name)
+		b.result.WriteString(`="`)
+		b.result.WriteString(escapeXML(attrs[name]))
+		b.result.WriteString(`"`)
+	}
+}
+
 // createInParent creates missing elements within a parent element
 func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPath []PathSegment, xmlValue string, isRaw bool) error {
 	b.result.Reset()
@@ -604,15 +612,7 @@ func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPa
 		b.result.WriteString(parentLocation.elementName)
 
 		// Write attributes if any
-		if len(parentLocation.attrs) > 0 {
-			for k, v := range parentLocation.attrs {
-				b.result.WriteString(" ")
-				b.result.WriteString(k)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(v))
-				b.result.WriteString(`"`)
-			}
-		}
+		b.writeAttributes(parentLocation.attrs)
 
 		b.result.WriteString(">")
 
-- 
2.43.0


From b3ce51443aaf17409f5c0741561738978a34c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:04 +0000
Subject: [PATCH 3/9] fix: resolve case-insensitive attribute lookups in name
 order

When an element carries attributes that differ only in case, the value
returned by a case-insensitive query depended on map order.
---
 get.go | 137 ++++++++++++++++++++++++++++++---------------------------
 1 file changed, 72 insertions(+), 65 deletions(-)

diff --git a/get.go b/get.go
index c97fb46..36ccee8 100644
--- a/get.go
+++ b/get.go
@@ -4,6 +4,7 @@
 package xmldot
 
 import (
+	"sort"
 	"strings"
 	"unsafe"
 )
@@ -1157,16 +1158,15 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 			attrName := segments[segIndex+1].Value
 			// For case-insensitive matching, search attrs case-insensitively
 			if !opts.CaseSensitive {
-				for k, v := range attrs {
-					if toLowerASCII(k) == attrName {
-						if segIndex+2 < len(segments) {
-							return Result{Type: Null}
-						}
-						return Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						}
+				if values := attributesFold(attrs, attrName); len(values) > 0 {
+					v := values[0]
+					if segIndex+2 < len(segments) {
+						return Result{Type: Null}
+					}
+					return Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
 					}
 				}
 				return Result{Type: Null}
@@ -1228,13 +1228,12 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 					if segments[segIndex+2].Type == SegmentAttribute {
 						attrName := segments[segIndex+2].Value
 						if !opts.CaseSensitive {
-							for k, v := range match.attrs {
-								if toLowerASCII(k) == attrName {
-									return Result{
-										Type: Attribute,
-										Str:  v,
-										Raw:  v,
-									}
+							if values := attributesFold(match.attrs, attrName); len(values) > 0 {
+								v := values[0]
+								return Result{
+									Type: Attribute,
+									Str:  v,
+									Raw:  v,
 								}
 							}
 							return Result{Type: Null}
@@ -1305,15 +1304,13 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrName {
-						if segIndex+2 >= len(segments) {
-							allResults = append(allResults, Result{
-								Type: Attribute,
-								Str:  v,
-								Raw:  v,
-							})
-						}
+				for _, v := range attributesFold(match.attrs, attrName) {
+					if segIndex+2 >= len(segments) {
+						allResults = append(allResults, Result{
+							Type: Attribute,
+							Str:  v,
+							Raw:  v,
+						})
 					}
 				}
 				continue
@@ -1446,15 +1443,13 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 				case SegmentAttribute:
 					attrName := nextSegment.Value
 					if !opts.CaseSensitive {
-						for k, v := range attrs {
-							if toLowerASCII(k) == attrName {
-								if segIndex+2 >= len(segments) {
-									*ctx.results = append(*ctx.results, Result{
-										Type: Attribute,
-										Str:  v,
-										Raw:  v,
-									})
-								}
+						for _, v := range attributesFold(attrs, attrName) {
+							if segIndex+2 >= len(segments) {
+								*ctx.results = append(*ctx.results, Result{
+									Type: Attribute,
+									Str:  v,
+									Raw:  v,
+								})
 							}
 						}
 					} else {
@@ -1631,16 +1626,14 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 			// Case-insensitive attribute lookup
 			if !opts.CaseSensitive {
 				attrNameLower := toLowerASCII(attrName)
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrNameLower {
-						results = append(results, Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						})
-						totalExtracted++
-						break // Only match first attribute with this name
-					}
+				if values := attributesFold(match.attrs, attrNameLower); len(values) > 0 {
+					v := values[0]
+					results = append(results, Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
+					})
+					totalExtracted++
 				}
 			} else {
 				// Case-sensitive attribute lookup
@@ -2081,19 +2074,18 @@ func processFirstMatchWithOptions(match elementMatch, segments []PathSegment, se
 		attrName := nextSeg.Value
 		// For case-insensitive matching, search attrs case-insensitively
 		if !opts.CaseSensitive {
-			for k, v := range match.attrs {
-				if toLowerASCII(k) == attrName {
-					result := Result{
-						Type: Attribute,
-						Str:  v,
-						Raw:  v,
-					}
-					// Apply modifiers from the attribute segment if present
-					if len(nextSeg.Modifiers) > 0 {
-						result = applyModifiers(result, nextSeg.Modifiers)
-					}
-					return result
+			if values := attributesFold(match.attrs, attrName); len(values) > 0 {
+				v := values[0]
+				result := Result{
+					Type: Attribute,
+					Str:  v,
+					Raw:  v,
 				}
+				// Apply modifiers from the attribute segment if present
+				if len(nextSeg.Modifiers) > 0 {
+					result = applyModifiers(result, nextSeg.Modifiers)
+				}
+				return result
 			}
 			return Result{Type: Null}
 		}
@@ -2172,14 +2164,12 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrName {
-						allResults = append(allResults, Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						})
-					}
+				for _, v := range attributesFold(match.attrs, attrName) {
+					allResults = append(allResults, Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
+					})
 				}
 				continue
 			}
@@ -2269,3 +2259,20 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 func stringToBytes(s string) []byte {
 	return unsafe.Slice(unsafe.StringData(s), len(s))
 }
+
+// attributesFold returns the values of the attributes whose lowercased name is
+// lowerName, in order of attribute name so that the result does not depend on map order
+func attributesFold(attrs map[string]string, lowerName string) []string {
+	var names []string
+	for name := range attrs {
+		if toLowerASCII(name) == lowerName {
+			names = append(names, name)
+		}
+	}
+	sort.Strings(names)
+	values := make([]string, len(names))
+	for i, name := range names {
+		values[i] = attrs[name]
+	}
+	return values
+}
-- 
2.43.0


From 7ea8a6d76d09786fd7e1b055f79d1b2877336b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:15 +0000
Subject: [PATCH 4/9] fix: do not panic on a filter value that is a single
 quote character

---
 filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index 3ea0a2e..aa39e38 100644
--- a/filter.go
+++ b/filter.go
@@ -221,8 +221,8 @@ func parseFilterCondition(expr string) (*Filter, error) {
 	}
 
 	// Remove quotes from string values
-	if (strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
-		(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\"")) {
+	if len(value) >= 2 && ((strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
+		(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\""))) {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From 04778e14b108f54c4669c389d58f2997e006c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:04 +0000
Subject: [PATCH 5/9] fix: edit elements whose closing tag contains whitespace
 at the right place

Offsets were derived from the length of the element name, which is wrong for
closing tags such as </name >, so edits damaged the document.
---
 builder.go | 12 +++++++-----
 parser.go  |  4 ++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/builder.go b/builder.go
index e6330e9..5d96a8a 100644
--- a/builder.go
+++ b/builder.go
@@ -169,6 +169,7 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 type elementLocation struct {
 	startPos      int    // Position of '<' in opening tag
 	endTagPos     int    // Position of '<' in closing tag
+	endPos        int    // Position after the element
 	contentStart  int    // Position after '>' of opening tag
 	contentEnd    int    // Position of '<' in closing tag
 	elementName   string // Name of the element
@@ -225,12 +226,13 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 					} else {
 						_ = parser.parseElementContent(elemName)
 						// parser.pos is now just after the '>' of </name>
-						endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
+						endTagPos = parser.contentEnd // at '<' of </name>
 						contentEnd = endTagPos
 					}
 					return &elementLocation{
 						startPos:      elemStartPos + baseOffset,
 						endTagPos:     endTagPos + baseOffset,
+						endPos:        parser.pos + baseOffset,
 						contentStart:  contentStart + baseOffset,
 						contentEnd:    contentEnd + baseOffset,
 						elementName:   elemName,
@@ -277,13 +279,14 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 				_ = parser.parseElementContent(elemName)
 				// parser.pos is now just after the '>' of </name>
 				// We want endTagPos to be at the '<' of </name>
-				endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
+				endTagPos = parser.contentEnd // at '<' of </name>
 				contentEnd = endTagPos
 				_ = startOfContent
 			}
 			return &elementLocation{
 				startPos:      elemStartPos + baseOffset,
 				endTagPos:     endTagPos + baseOffset,
+				endPos:        parser.pos + baseOffset,
 				contentStart:  contentStart + baseOffset,
 				contentEnd:    contentEnd + baseOffset,
 				elementName:   elemName,
@@ -511,7 +514,7 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 
 	// Find where root element ends
 	_ = parser.parseElementContent(elemName)
-	contentEnd := parser.pos - len(elemName) - 3
+	contentEnd := parser.contentEnd
 
 	b.result.Reset()
 	b.result.Write(b.data[:contentEnd])
@@ -1066,8 +1069,7 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 	} else {
 		// Regular element: <tag>content</tag>
 		// Skip past the closing tag </name>
-		endPos := location.endTagPos + len(location.elementName) + 3 // </name>
-		b.result.Write(b.data[endPos:])
+		b.result.Write(b.data[location.endPos:])
 	}
 
 	return nil
diff --git a/parser.go b/parser.go
index cefaa32..1324c05 100644
--- a/parser.go
+++ b/parser.go
@@ -70,6 +70,7 @@ type xmlParser struct {
 	depth       int
 	filterDepth int
 	dataLen     int // Cache data length to avoid repeated len() calls
+	contentEnd  int // End of the content last extracted by parseElementContent
 }
 
 // newXMLParser creates a new XML parser
@@ -255,6 +256,7 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 	if p.depth > MaxNestingDepth {
 		// Exceeded maximum nesting depth - stop parsing and return empty
 		p.depth--
+		p.contentEnd = p.pos
 		return ""
 	}
 	defer func() { p.depth-- }()
@@ -288,6 +290,7 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 					if closeName == elementName {
 						elementDepth--
 						if elementDepth == 0 {
+							p.contentEnd = tagStart
 							return string(p.data[contentStart:tagStart])
 						}
 					}
@@ -325,6 +328,7 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 		}
 	}
 
+	p.contentEnd = p.pos
 	return string(p.data[contentStart:p.pos])
 }
 
-- 
2.43.0


From 67dd0bee179f76a2e816f800b779c578251aa5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:22 +0000
Subject: [PATCH 6/9] fix: put the value inside when setting a self-closing
 element

The value was written after the tag and became text of the parent.
---
 builder.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/builder.go b/builder.go
index 5d96a8a..b5303a1 100644
--- a/builder.go
+++ b/builder.go
@@ -327,6 +327,21 @@ func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegme
 	// Build the result XML
 	b.result.Reset()
 
+	if location.isSelfClosing {
+		// Self-closing tag - convert to full element with content
+		b.result.Write(b.data[:location.startPos])
+		b.result.WriteString("<")
+		b.result.WriteString(location.elementName)
+		b.writeAttributes(location.attrs)
+		b.result.WriteString(">")
+		b.result.WriteString(xmlValue)
+		b.result.WriteString("</")
+		b.result.WriteString(location.elementName)
+		b.result.WriteString(">")
+		b.result.Write(b.data[location.endPos:])
+		return nil
+	}
+
 	// Write everything up to and including the opening tag (up to contentStart)
 	b.result.Write(b.data[:location.contentStart])
 
-- 
2.43.0


From 6ae90d655939a3d4322ec8f167901aec2430fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:35 +0000
Subject: [PATCH 7/9] fix: do not treat text inside CDATA sections and comments
 as markup

---
 parser.go | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/parser.go b/parser.go
index 1324c05..b4ab2da 100644
--- a/parser.go
+++ b/parser.go
@@ -4,6 +4,7 @@
 package xmldot
 
 import (
+	"bytes"
 	"strings"
 )
 
@@ -295,7 +296,11 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 						}
 					}
 				} else if next == '!' {
-					// Comment or CDATA - include in content for now
+					// Comment or CDATA - part of the content, but not markup
+					p.skipDeclaration()
+				} else if next == '?' {
+					// Processing instruction
+					p.readUntil('>')
 					p.next()
 				} else {
 					// Opening tag of nested element
@@ -385,6 +390,28 @@ func extractDirectTextOnly(content string) string {
 	return strings.TrimSpace(result.String())
 }
 
+// skipDeclaration advances past the comment or CDATA section at the current position
+// Whatever looks like a tag inside of them is text, not markup
+// Any other declaration is left at the character after "<!"
+func (p *xmlParser) skipDeclaration() {
+	rest := p.data[p.pos:]
+	opening, closing := "<!--", "-->"
+	if bytes.HasPrefix(rest, []byte("<![CDATA[")) {
+		opening, closing = "<![CDATA[", "]]>"
+	}
+	if !bytes.HasPrefix(rest, []byte(opening)) {
+		p.pos += len("<!")
+		return
+	}
+	end := bytes.Index(rest[len(opening):], []byte(closing))
+	if end < 0 {
+		// Unclosed - nothing after it is markup
+		p.pos = p.dataLen
+		return
+	}
+	p.pos += len(opening) + end + len(closing)
+}
+
 // skipToNextElement advances the parser to the next element opening tag
 func (p *xmlParser) skipToNextElement() bool {
 	for p.pos < p.dataLen {
@@ -426,18 +453,7 @@ func (p *xmlParser) skipToNextElement() bool {
 						}
 					}
 					// Skip comment or CDATA
-					p.next() // skip '<'
-					p.next() // skip '!'
-					if p.pos+1 < p.dataLen && p.data[p.pos] == '-' && p.data[p.pos+1] == '-' {
-						// Comment: skip to -->
-						for p.pos < p.dataLen-2 {
-							if p.data[p.pos] == '-' && p.data[p.pos+1] == '-' && p.data[p.pos+2] == '>' {
-								p.pos += 3
-								break
-							}
-							p.pos++
-						}
-					}
+					p.skipDeclaration()
 				} else if next == '?' {
 					// Skip processing instruction
 					p.readUntil('>')
-- 
2.43.0


From c5260ec94b167d4fe32789584095e8cc316ff333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:31:18 +0000
Subject: [PATCH 8/9] fix: keep references in attribute values when a tag is
 rewritten

Editing an element rewrites its opening tag. Character references such as
&#65; in its other attributes came out as &amp;#65;, which changed their
value. Attribute values are now taken over as written.
---
 builder.go | 33 +++++++++++++++++++++++++++++----
 parser.go  | 15 +++++++++++++--
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/builder.go b/builder.go
index b5303a1..fe3a808 100644
--- a/builder.go
+++ b/builder.go
@@ -195,6 +195,7 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 	// Track matches for array indexing
 	matchCount := 0
 	needsIndex := !isLastSegment && segments[segIndex+1].Type == SegmentIndex
+	parser.rawAttrs = true
 
 	for parser.skipToNextElement() {
 		elemStartPos := parser.pos
@@ -415,7 +416,7 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 		if isModifiedAttr {
 			b.result.WriteString(attrValue)
 		} else {
-			b.result.WriteString(escapeXML(location.attrs[name]))
+			b.result.WriteString(requoteAttribute(location.attrs[name]))
 		}
 		b.result.WriteString("\"")
 	}
@@ -480,6 +481,7 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 
 	// Find the root element to insert into
 	parser := newXMLParser(b.data)
+	parser.rawAttrs = true
 	if !parser.skipToNextElement() {
 		return ErrMalformedXML
 	}
@@ -611,11 +613,34 @@ func (b *xmlBuilder) writeAttributes(attrs map[string]string) {
 		b.result.WriteString(" ")
 		b.result.WriteString(name)
 		b.result.WriteString(`="`)
-		b.result.WriteString(escapeXML(attrs[name]))
+		b.result.WriteString(requoteAttribute(attrs[name]))
 		b.result.WriteString(`"`)
 	}
 }
 
+// requoteAttribute returns an attribute value, given as written in the document,
+// for use between double quotes. References keep their form.
+func requoteAttribute(text string) string {
+	var out strings.Builder
+	for {
+		i := strings.IndexByte(text, '&')
+		if i < 0 {
+			break
+		}
+		out.WriteString(escapeXML(text[:i]))
+		text = text[i+1:]
+		n := strings.IndexAny(text, ";& \t\r\n<>\"'")
+		if n > 0 && text[n] == ';' {
+			out.WriteString("&" + text[:n])
+			text = text[n:]
+		} else {
+			out.WriteString("&amp;")
+		}
+	}
+	out.WriteString(escapeXML(text))
+	return out.String()
+}
+
 // createInParent creates missing elements within a parent element
 func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPath []PathSegment, xmlValue string, isRaw bool) error {
 	b.result.Reset()
@@ -799,7 +824,7 @@ func (b *xmlBuilder) appendElement(path []PathSegment, value interface{}) error
 				b.result.WriteString(" ")
 				b.result.WriteString(name)
 				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(parentLoc.attrs[name]))
+				b.result.WriteString(requoteAttribute(parentLoc.attrs[name]))
 				b.result.WriteString(`"`)
 			}
 		}
@@ -1144,7 +1169,7 @@ func (b *xmlBuilder) deleteAttribute(location *elementLocation, attrName string)
 		b.result.WriteString(" ")
 		b.result.WriteString(name)
 		b.result.WriteString("=\"")
-		b.result.WriteString(escapeXML(location.attrs[name]))
+		b.result.WriteString(requoteAttribute(location.attrs[name]))
 		b.result.WriteString("\"")
 	}
 
diff --git a/parser.go b/parser.go
index b4ab2da..a676b78 100644
--- a/parser.go
+++ b/parser.go
@@ -72,6 +72,9 @@ type xmlParser struct {
 	filterDepth int
 	dataLen     int // Cache data length to avoid repeated len() calls
 	contentEnd  int // End of the content last extracted by parseElementContent
+
+	// rawAttrs keeps attribute values as written in the document
+	rawAttrs bool
 }
 
 // newXMLParser creates a new XML parser
@@ -212,17 +215,25 @@ func (p *xmlParser) parseAttributes() map[string]string {
 			p.next() // skip opening quote
 			value := p.readUntil(quote)
 			p.next() // skip closing quote
-			attrs[name] = unescapeXML(value)
+			attrs[name] = p.attributeValue(value)
 		} else {
 			// Unquoted attribute value (read until whitespace or >)
 			value := p.readUntilAny(" \t\n\r/>")
-			attrs[name] = unescapeXML(value)
+			attrs[name] = p.attributeValue(value)
 		}
 	}
 
 	return attrs
 }
 
+// attributeValue returns the value of an attribute for the text between its quotes
+func (p *xmlParser) attributeValue(text string) string {
+	if p.rawAttrs {
+		return text
+	}
+	return unescapeXML(text)
+}
+
 // parseElementName extracts the element name and attributes from an opening tag
 // Assumes the parser is positioned after the '<' character
 // Returns: elementName, attributes, isSelfClosing, error
-- 
2.43.0


From 786ec19afb766f90d0cea76e0e6762abfaa93aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:46:48 +0000
Subject: [PATCH 9/9] fix: deleting the only element of a document leaves an
 empty document

A delete whose result is empty was taken for an edit which built nothing, so the
document came back unchanged without an error.
---
 builder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/builder.go b/builder.go
index fe3a808..febd512 100644
--- a/builder.go
+++ b/builder.go
@@ -17,6 +17,9 @@ const (
 
 // xmlBuilder is an internal XML builder for modifications
 type xmlBuilder struct {
+	// emptied tells that an edit left no document at all
+	emptied bool
+
 	data   []byte
 	result strings.Builder
 	pos    int
@@ -1112,6 +1115,9 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 		b.result.Write(b.data[location.endPos:])
 	}
 
+	// Nothing is left when the document consisted of that element only
+	b.emptied = b.result.Len() == 0
+
 	return nil
 }
 
@@ -1187,7 +1193,7 @@ func (b *xmlBuilder) deleteAttribute(location *elementLocation, attrName string)
 
 // getResult returns the built XML string
 func (b *xmlBuilder) getResult() string {
-	if b.result.Len() == 0 {
+	if b.result.Len() == 0 && !b.emptied {
 		return string(b.data)
 	}
 	return b.result.String()
-- 
2.43.0

