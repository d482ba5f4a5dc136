From 6bcb76e7c6d049bfccfbdfa06fb72af9df4cec50 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 01/57] fix: parser.New seeks to the start of the underlying
 reader

The parser assumed that the reader passed to New is positioned at offset 0.
If it was not, all data was read from the wrong offsets.
---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3b0d6f2..796f774 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -44,7 +44,8 @@ func New(r ReadSeekSizer) *Parser {
 	p := &Parser{
 		r: r,
 	}
-	err := p.SeekPos(0)
+	// The underlying reader may be positioned anywhere.
+	_, err := r.Seek(0, io.SeekStart)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 889da4f62747b24bf7e345e645306c8cbfe212c4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 02/57] fix: builder writes the ligature flag as -ligs, the
 form the parser reads

---
 opentype/gtab/builder/explain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 7d9ec60..2bde8ef 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -372,7 +372,7 @@ func (ee *explainer) explainFlags(flags gtab.LookupFlags) {
 		ee.w.WriteString(" -base")
 	}
 	if flags&gtab.IgnoreLigatures != 0 {
-		ee.w.WriteString(" -lig")
+		ee.w.WriteString(" -ligs")
 	}
 	// if flags&UseMarkFilteringSet != 0 {
 	// 	ee.w.WriteString(" -UseMarkFilteringSet")
-- 
2.43.0


From cef77d8a7938ab32b8ef11b680af493f6c69c229 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:42:48 +0000
Subject: [PATCH 03/57] fix: builder separates class definitions from the
 lookup flags

---
 opentype/gtab/builder/explain.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 2bde8ef..cd5a4ba 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -582,6 +582,7 @@ func (ee *explainer) explainSeqContext1(l *gtab.SeqContext1) {
 }
 
 func (ee *explainer) explainSeqContext2(l *gtab.SeqContext2) {
+	ee.w.WriteRune(' ')
 	ee.defineClasses("class", l.Input)
 	ee.w.WriteRune('/')
 	ee.explainCoverage(l.Cov)
@@ -641,6 +642,7 @@ func (ee *explainer) explainChainedSeqContext1(l *gtab.ChainedSeqContext1) {
 }
 
 func (ee *explainer) explainChainedSeqContext2(l *gtab.ChainedSeqContext2) {
+	ee.w.WriteRune(' ')
 	ee.defineClasses("backtrackclass", l.Backtrack)
 	ee.defineClasses("inputclass", l.Input)
 	ee.defineClasses("lookaheadclass", l.Lookahead)
-- 
2.43.0


From 11a38b10ddb70a4aa249802e35fb82c58e11d162 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 04/57] fix: builder does not write an empty line before later
 GPOS 2.2 and 4.1 subtables

---
 opentype/gtab/builder/explain.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index cd5a4ba..7414452 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -215,7 +215,9 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 
 			case *gtab.Gpos2_2:
 				checkType(2)
-				ee.w.WriteString("\n\t")
+				if i == 0 {
+					ee.w.WriteString("\n\t")
+				}
 				ee.w.WriteRune('/')
 				ee.writeGlyphList(l.Cov.Glyphs())
 				ee.w.WriteRune('/')
@@ -271,21 +273,27 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 			case *gtab.Gpos4_1:
 				checkType(4)
 				markGlyphs := l.MarkCov.Glyphs()
-				for i, gid := range markGlyphs {
-					ee.w.WriteString("\n\tmark ")
+				for j, gid := range markGlyphs {
+					if i == 0 || j > 0 {
+						ee.w.WriteString("\n\t")
+					}
+					ee.w.WriteString("mark ")
 					ee.writeGlyph(gid)
 					ee.w.WriteRune(':')
-					rec := l.MarkArray[i]
+					rec := l.MarkArray[j]
 					fmt.Fprintf(ee.w, " %d@%d,%d", rec.Class, rec.Table.X, rec.Table.Y)
 					ee.w.WriteRune(';')
 				}
 
 				baseGlyphs := l.BaseCov.Glyphs()
-				for i, gid := range baseGlyphs {
-					ee.w.WriteString("\n\tbase ")
+				for j, gid := range baseGlyphs {
+					if i == 0 || j > 0 || len(markGlyphs) > 0 {
+						ee.w.WriteString("\n\t")
+					}
+					ee.w.WriteString("base ")
 					ee.writeGlyph(gid)
 					ee.w.WriteRune(':')
-					anchors := l.BaseArray[i]
+					anchors := l.BaseArray[j]
 					for _, a := range anchors {
 						fmt.Fprintf(ee.w, " @%d,%d", a.X, a.Y)
 					}
-- 
2.43.0


From 39d34d45d42497dde9c6f887f220c926eae3588d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:42:52 +0000
Subject: [PATCH 05/57] fix: builder does not quote unprintable characters or
 characters of missing glyphs

---
 opentype/gtab/builder/explain.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 7414452..927bb68 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -19,6 +19,7 @@ package builder
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"golang.org/x/exp/maps"
@@ -346,7 +347,9 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 		a, b := cmap.CodeRange()
 		for r := a; r <= b; r++ {
 			gid := cmap.Lookup(r)
-			if gid != 0 {
+			// Only printable characters are quoted without escape sequences
+			// which the parser does not understand.
+			if gid != 0 && int(gid) < len(mappings) && strconv.IsPrint(r) {
 				mappings[gid] = fmt.Sprintf("%q", string([]rune{r}))
 			}
 		}
-- 
2.43.0


From 22ef27263ba89af5175525fd38d1f924982085c1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 06/57] fix: builder uses glyph numbers where the glyph name
 does not identify the glyph

---
 opentype/gtab/builder/explain.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 927bb68..4e8e9ce 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -21,6 +21,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"golang.org/x/exp/maps"
 	"seehuhn.de/go/sfnt"
@@ -356,9 +357,13 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 	}
 
 	names := make([]string, fontInfo.NumGlyphs())
+	byName := make(map[string]int)
+	for i := range names {
+		byName[fontInfo.GlyphName(glyph.ID(i))] = i
+	}
 	for i := range names {
 		name := fontInfo.GlyphName(glyph.ID(i))
-		if name != "" {
+		if byName[name] == i && isGlyphName(name) {
 			names[i] = name
 		} else {
 			names[i] = fmt.Sprintf("%d", i)
@@ -372,6 +377,21 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 	}
 }
 
+// isGlyphName returns true, if the parser can read the given name in all
+// places where a glyph name is allowed.
+func isGlyphName(name string) bool {
+	switch name {
+	case "", "class", "inputclass", "backtrackclass", "lookaheadclass":
+		return false
+	}
+	for i, r := range name {
+		if !(unicode.IsLetter(r) || r == '.' || r == '_' || i > 0 && unicode.IsDigit(r)) {
+			return false
+		}
+	}
+	return true
+}
+
 func (ee *explainer) explainFlags(flags gtab.LookupFlags) {
 	if flags&gtab.IgnoreMarks != 0 {
 		ee.w.WriteString(" -marks")
@@ -429,7 +449,9 @@ func (ee *explainer) explainSeqMappings(mm []mapping) {
 		}
 
 		if rangeLen > 2 {
-			fmt.Fprintf(ee.w, "%s-%s -> %s-%s",
+			// The spaces prevent the parser from reading the end of a
+			// range of numbers as a negative number.
+			fmt.Fprintf(ee.w, "%s - %s -> %s - %s",
 				ee.names[mm[0].from[0]],
 				ee.names[mm[rangeLen-1].from[0]],
 				ee.names[mm[0].to[0]],
-- 
2.43.0


From 213de6af6f185c5aaf0d44055ebd7400d3c56816 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:42:55 +0000
Subject: [PATCH 07/57] fix: builder does not write ligatures as ranges of
 glyphs

---
 opentype/gtab/builder/explain.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 4e8e9ce..2ea5e58 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -61,7 +61,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						to:   []glyph.ID{key + l.Delta},
 					})
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, false)
 
 			case *gtab.Gsub1_2:
 				checkType(1)
@@ -72,7 +72,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						to:   []glyph.ID{l.SubstituteGlyphIDs[idx]},
 					})
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, false)
 
 			case *gtab.Gsub2_1:
 				checkType(2)
@@ -113,7 +113,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						})
 					}
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, true)
 
 			case *gtab.SeqContext1:
 				checkType(5)
@@ -418,7 +418,10 @@ type mapping struct {
 	to   []glyph.ID
 }
 
-func (ee *explainer) explainSeqMappings(mm []mapping) {
+// explainSeqMappings writes substitutions.  If isLigature is false, all
+// mappings must be from a single glyph to a single glyph, and ranges of
+// glyphs are abbreviated.
+func (ee *explainer) explainSeqMappings(mm []mapping, isLigature bool) {
 	sort.SliceStable(mm, func(i, j int) bool {
 		return mm[i].from[0] < mm[j].from[0]
 	})
@@ -428,12 +431,7 @@ func (ee *explainer) explainSeqMappings(mm []mapping) {
 		ee.w.WriteString(sep)
 		sep = ", "
 
-		canRange := len(mm) > 2
-		for i := 1; canRange && i < len(mm); i++ {
-			if len(mm[i].from) != 1 || len(mm[i].to) != 1 {
-				canRange = false
-			}
-		}
+		canRange := !isLigature && len(mm) > 2
 
 		rangeLen := 1
 		if canRange {
-- 
2.43.0


From 239c89db66a1ab7ae3a10cae352458d4742b558b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 08/57] fix: builder.Parse leaves no string decoder behind, and
 works without a character map

---
 opentype/gtab/builder/parser.go | 61 ++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index c29a455..8e301f0 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -46,10 +46,8 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 		}
 	}
 
-	cmap, err := fontInfo.CMapTable.GetBest()
-	if err != nil {
-		return nil, err
-	}
+	// Without a usable character map, only quoted strings are unavailable.
+	cmap, _ := fontInfo.CMapTable.GetBest()
 
 	_, tokens := lex(input)
 	p := &parser{
@@ -1122,7 +1120,10 @@ func (p *parser) readGlyphList() []glyph.ID {
 			next = append(next, gid)
 
 		case itemString:
-			for r := range decodeString(item.val) {
+			if p.cmap == nil {
+				p.fatal("string %s used, but the font has no usable character map", item)
+			}
+			for _, r := range decodeString(item.val) {
 				gid := p.cmap.Lookup(r)
 				if gid == 0 {
 					p.fatal("rune %q not in mapped in font", r)
@@ -1388,35 +1389,31 @@ func (p *parser) optionalIdentifier(name string) bool {
 	return true
 }
 
-func decodeString(s string) <-chan rune {
-	c := make(chan rune)
-	go func() {
-		s := s[1 : len(s)-1]
-		escape := false
-		for _, r := range s {
-			if escape {
-				escape = false
-				switch r {
-				case 'n':
-					c <- '\n'
-				case 'r':
-					c <- '\r'
-				case 't':
-					c <- '\t'
-				default:
-					c <- r
-				}
-				continue
-			}
-			if r == '\\' {
-				escape = true
-				continue
+func decodeString(s string) []rune {
+	var res []rune
+	s = s[1 : len(s)-1]
+	escape := false
+	for _, r := range s {
+		if escape {
+			escape = false
+			switch r {
+			case 'n':
+				r = '\n'
+			case 'r':
+				r = '\r'
+			case 't':
+				r = '\t'
 			}
-			c <- r
+			res = append(res, r)
+			continue
 		}
-		close(c)
-	}()
-	return c
+		if r == '\\' {
+			escape = true
+			continue
+		}
+		res = append(res, r)
+	}
+	return res
 }
 
 func isIdentifier(i item, val string) bool {
-- 
2.43.0


From 52c512bfe8ce3200543089f1e433fca4df261877 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:42:58 +0000
Subject: [PATCH 09/57] fix: builder.Parse reports the line number for all
 errors

---
 opentype/gtab/builder/lexer.go  | 5 +++--
 opentype/gtab/builder/parser.go | 9 ++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/opentype/gtab/builder/lexer.go b/opentype/gtab/builder/lexer.go
index 177f97d..ead2a5f 100644
--- a/opentype/gtab/builder/lexer.go
+++ b/opentype/gtab/builder/lexer.go
@@ -135,8 +135,9 @@ func (l *lexer) backup() {
 
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
 	l.items <- item{
-		typ: itemError,
-		val: fmt.Sprintf(format, args...),
+		typ:  itemError,
+		val:  fmt.Sprintf(format, args...),
+		line: l.line,
 	}
 	return nil
 }
diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index 8e301f0..2c5627e 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -78,6 +78,7 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 type parser struct {
 	tokens  <-chan item
 	backlog []item
+	line    int // line number of the last token read
 
 	fontInfo *sfnt.Font
 	cmap     cmap.Subtable
@@ -1344,7 +1345,13 @@ func (p *parser) readItem() item {
 		p.backlog = p.backlog[:n]
 		return item
 	}
-	return <-p.tokens
+	next, ok := <-p.tokens
+	if ok {
+		p.line = next.line
+	} else { // the lexer has stopped
+		next = item{typ: itemEOF, line: p.line}
+	}
+	return next
 }
 
 func (p *parser) peek() item {
-- 
2.43.0


From ead43ed730f3eee3b55ba6add78f7825dd618401 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:43:00 +0000
Subject: [PATCH 10/57] fix: builder.Parse terminates for ranges which end at
 glyph 65535

---
 opentype/gtab/builder/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index 2c5627e..b04923a 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -1160,8 +1160,8 @@ func (p *parser) readGlyphList() []glyph.ID {
 						res = append(res, glyph.ID(i))
 					}
 				} else if gid > start {
-					for i := start + 1; i <= gid; i++ {
-						res = append(res, i)
+					for i := int(start) + 1; i <= int(gid); i++ {
+						res = append(res, glyph.ID(i))
 					}
 				}
 				hyphenSeen = false
-- 
2.43.0


From 2c8d5b50af9648b204e1240f38605e3b983a54e4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:12:18 +0000
Subject: [PATCH 11/57] fix: Subset does not write to the caller's slice of
 glyphs

---
 subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subset.go b/subset.go
index 13b21d7..4eeba95 100644
--- a/subset.go
+++ b/subset.go
@@ -18,6 +18,7 @@ package sfnt
 
 import (
 	"fmt"
+	"slices"
 
 	"golang.org/x/exp/maps"
 	"seehuhn.de/go/postscript/cid"
@@ -40,7 +41,7 @@ func (f *Font) Subset(glyphs []glyph.ID) *Font {
 	res := f.Clone()
 
 	s := subsetter{
-		glyphs: glyphs,
+		glyphs: slices.Clip(glyphs), // may be extended below
 		newGid: map[glyph.ID]glyph.ID{},
 	}
 	for newgid, oldGid := range glyphs {
-- 
2.43.0


From 6ed4106418590915c63fb538810158d01ec31a25 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 12/57] fix: shaping drops unfinished nested actions, and skips
 actions with an invalid position

---
 opentype/gtab/layout.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index 0b905bc..fbb25be 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -121,12 +121,12 @@ func (ctx *Context) applyAtRecursively(pos int) int {
 
 		lookupIndex := ctx.stack[k].Actions[0].LookupListIndex
 		seqIdx := ctx.stack[k].Actions[0].SequenceIndex
+		ctx.stack[k].Actions = ctx.stack[k].Actions[1:]
 		if int(seqIdx) >= len(ctx.stack[k].InputPos) {
 			continue
 		}
 		pos := ctx.stack[k].InputPos[seqIdx]
 		end := ctx.stack[k].EndPos
-		ctx.stack[k].Actions = ctx.stack[k].Actions[1:]
 
 		if int(lookupIndex) >= len(ctx.ll) {
 			continue
@@ -146,6 +146,14 @@ func (ctx *Context) applyAtRecursively(pos int) int {
 		}
 	}
 
+	if len(ctx.stack) > 0 {
+		// We ran out of actions.  Discard the remaining actions, so that they
+		// don't interfere with later matches.
+		next = ctx.stack[0].EndPos
+		clear(ctx.stack)
+		ctx.stack = ctx.stack[:0]
+	}
+
 	return next
 }
 
-- 
2.43.0


From 73fedb08661354de9768d18681d7906a62e2798b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 13/57] fix: shaping checks class and mark set indices before
 use

---
 opentype/gtab/filter.go | 4 ++--
 opentype/gtab/gpos4.go  | 6 +++++-
 opentype/gtab/gpos6.go  | 6 +++++-
 opentype/gtab/nested.go | 3 +++
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/opentype/gtab/filter.go b/opentype/gtab/filter.go
index 6b7c5b9..7561019 100644
--- a/opentype/gtab/filter.go
+++ b/opentype/gtab/filter.go
@@ -85,8 +85,8 @@ func (k *keepFunc) Keep(gid glyph.ID) bool {
 		} else if flags&UseMarkFilteringSet != 0 {
 			// If a mark filtering set is specified, this supersedes any mark
 			// attachment type indication in the lookup flag.
-			set := k.Meta.MarkFilteringSet
-			if k.Gdef.MarkGlyphSets == nil || !k.Gdef.MarkGlyphSets[set][gid] {
+			set := int(k.Meta.MarkFilteringSet)
+			if set >= len(k.Gdef.MarkGlyphSets) || !k.Gdef.MarkGlyphSets[set][gid] {
 				return false
 			}
 		} else if m := flags & MarkAttachTypeMask; m != 0 {
diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index 87d534a..0ba92eb 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -145,7 +145,11 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 	if p < 0 {
 		return -1
 	}
-	baseRecord := l.BaseArray[baseIdx][markRecord.Class]
+	baseRecords := l.BaseArray[baseIdx]
+	if int(markRecord.Class) >= len(baseRecords) {
+		return -1
+	}
+	baseRecord := baseRecords[markRecord.Class]
 	if baseRecord.IsEmpty() {
 		// TODO(voss): verify that this is what others do, too.
 		return -1
diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index 29d78da..993cf6a 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -143,7 +143,11 @@ func (l *Gpos6_1) apply(ctx *Context, a, b int) int {
 	if p < 0 {
 		return -1
 	}
-	mark2Record := l.Mark2Array[mark2Idx][mark1Record.Class]
+	mark2Records := l.Mark2Array[mark2Idx]
+	if int(mark1Record.Class) >= len(mark2Records) {
+		return -1
+	}
+	mark2Record := mark2Records[mark1Record.Class]
 	if mark2Record.IsEmpty() {
 		// TODO(voss): verify that this is what others do, too.
 		return -1
diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 8a6ab08..04ee607 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -392,6 +392,9 @@ func (l *SeqContext2) apply(ctx *Context, a, b int) int {
 		return -1
 	}
 	ruleIdx := l.Input[gid]
+	if int(ruleIdx) >= len(l.Rules) {
+		return -1
+	}
 	rules := l.Rules[ruleIdx]
 
 	matchPos := ctx.scratch
-- 
2.43.0


From 629423a62e9cee2552fc691bd6633b2c6ff5a2f2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 14/57] fix: ligatures do not mix up matched and skipped
 glyphs; empty replacements do not match

---
 opentype/gtab/gsub.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 4b372a9..c10b5cb 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -267,8 +267,12 @@ func (l *Gsub2_1) apply(ctx *Context, a, b int) int {
 	}
 
 	repl := l.Repl[idx]
-	seq[a].GID = repl[0]
 	k := len(repl)
+	if k == 0 {
+		// Empty replacement sequences are forbidden by the spec.
+		return -1
+	}
+	seq[a].GID = repl[0]
 	if k > 1 {
 		// insert k-1 new glyphs after position a
 		seq = slices.Grow(seq, k-1)
@@ -585,7 +589,7 @@ ligLoop:
 		lig := &ligSet[j]
 
 		matchPos = matchPos[:0]
-		skipPos = matchPos[:0]
+		skipPos = skipPos[:0]
 		text = text[:0]
 
 		matchPos = append(matchPos, a)
-- 
2.43.0


From 753042911b2cef14d2ac0bc97a37c6d47d274aac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 15/57] fix: FindLookups does not depend on the map iteration
 order

---
 opentype/gtab/lookup.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index bbcbfe0..13d0dc9 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -580,8 +580,16 @@ func (info *Info) FindLookups(lang language.Tag, includeFeature map[string]bool)
 	for tag := range info.ScriptList {
 		tags = append(tags, tag)
 	}
-	// TODO(voss): make sure a sensible default comes first.
-	//     Maybe this could be based on the number of features supported?
+	// The first tag is used as the default in case there is no match.  We use
+	// the default script here, if possible.  The order of the remaining tags
+	// is fixed, so that the result does not depend on the map iteration order.
+	defaultTag := language.MustParse("und-Zzzz")
+	sort.Slice(tags, func(i, j int) bool {
+		if (tags[i] == defaultTag) != (tags[j] == defaultTag) {
+			return tags[i] == defaultTag
+		}
+		return tags[i].String() < tags[j].String()
+	})
 
 	matcher := language.NewMatcher(tags)
 	_, index, _ := matcher.Match(lang)
-- 
2.43.0


From afcc2ea89545bb3e0f2faec8a1f5fb91293e1c2d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 16/57] fix: Layout does not panic for glyphs missing from the
 font

---
 layout.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/layout.go b/layout.go
index 76483cc..6935d68 100644
--- a/layout.go
+++ b/layout.go
@@ -85,8 +85,12 @@ func (l *Layouter) Layout(s string) []glyph.Info {
 	}
 
 	font := l.font
+	numGlyphs := font.NumGlyphs()
 	for i := range seq {
 		gid := seq[i].GID
+		if int(gid) >= numGlyphs { // not present in the font
+			continue
+		}
 		if !font.Gdef.IsMark(gid) {
 			seq[i].Advance = funit.Int16(font.GlyphWidth(gid)) // TODO(voss)
 		}
-- 
2.43.0


From 0c5aaf5236c93a1aab70e7a744a7de5056463eda Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 17/57] fix: the end of a contextual match moves by the number
 of merged glyphs

---
 opentype/gtab/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index fbb25be..c93ccf9 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -266,6 +266,6 @@ func (ctx *Context) fixStackMerge(pos []int) {
 		}
 
 		action.InputPos = in
-		action.EndPos -= delta
+		action.EndPos -= len(pos) - 1
 	}
 }
-- 
2.43.0


From ace8d0b5c03ebf66500642c2975248cc7e524dba Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 18/57] fix: bound the work done for shared offsets in GSUB,
 GPOS and GDEF tables

---
 opentype/classdef/classdef.go |  4 ++++
 opentype/coverage/coverage.go |  4 ++++
 opentype/coverage/set.go      |  4 ++++
 opentype/gdef/gdef.go         |  1 +
 opentype/gtab/gpos.go         |  8 +++++++
 opentype/gtab/gtab.go         |  1 +
 parser/parser.go              | 42 +++++++++++++++++++++++++++++++++++
 7 files changed, 64 insertions(+)

diff --git a/opentype/classdef/classdef.go b/opentype/classdef/classdef.go
index 03a3a48..2360b4d 100644
--- a/opentype/classdef/classdef.go
+++ b/opentype/classdef/classdef.go
@@ -125,6 +125,10 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 			prevEnd = endGlyphID
 
 			if classValue != 0 {
+				err = p.UseWork(int(endGlyphID) - int(startGlyphID) + 1)
+				if err != nil {
+					return nil, err
+				}
 				for j := int(startGlyphID); j <= int(endGlyphID); j++ {
 					res[glyph.ID(j)] = classValue
 				}
diff --git a/opentype/coverage/coverage.go b/opentype/coverage/coverage.go
index d7672c0..01de5e1 100644
--- a/opentype/coverage/coverage.go
+++ b/opentype/coverage/coverage.go
@@ -132,6 +132,10 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 					Reason:    "invalid coverage table (format 2)",
 				}
 			}
+			err = p.UseWork(endGlyphID - startGlyphID + 1)
+			if err != nil {
+				return nil, err
+			}
 			for gid := startGlyphID; gid <= endGlyphID; gid++ {
 				table[glyph.ID(gid)] = pos
 				pos++
diff --git a/opentype/coverage/set.go b/opentype/coverage/set.go
index c215732..d427092 100644
--- a/opentype/coverage/set.go
+++ b/opentype/coverage/set.go
@@ -100,6 +100,10 @@ func ReadSet(p *parser.Parser, pos int64) (Set, error) {
 					Reason:    "invalid coverage table (format 2)",
 				}
 			}
+			err = p.UseWork(endGlyphID - startGlyphID + 1)
+			if err != nil {
+				return nil, err
+			}
 			for gid := startGlyphID; gid <= endGlyphID; gid++ {
 				table[glyph.ID(gid)] = true
 				pos++
diff --git a/opentype/gdef/gdef.go b/opentype/gdef/gdef.go
index 0dd5540..6bdddd5 100644
--- a/opentype/gdef/gdef.go
+++ b/opentype/gdef/gdef.go
@@ -48,6 +48,7 @@ func (table *Table) IsMark(gid glyph.ID) bool {
 // Read reads the GDEF table.
 func Read(r parser.ReadSeekSizer) (*Table, error) {
 	p := parser.New(r)
+	p.LimitWork(p.DefaultWork())
 	buf, err := p.ReadBytes(12)
 	if err != nil {
 		return nil, err
diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index dfdf87d..3034b29 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -156,6 +156,10 @@ func readGpos1_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	coverageOffset := int64(buf[0])<<8 | int64(buf[1])
 	valueFormat := uint16(buf[2])<<8 | uint16(buf[3])
 	valueCount := int(buf[4])<<8 | int(buf[5])
+	err = p.UseWork(valueCount)
+	if err != nil {
+		return nil, err
+	}
 	valueRecords := make([]*GposValueRecord, valueCount)
 	for i := range valueRecords {
 		valueRecords[i], err = readValueRecord(p, valueFormat)
@@ -514,6 +518,10 @@ func readGpos2_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			Reason:    "GPOS2.1 table too large",
 		}
 	}
+	err = p.UseWork(int(class1Count) + numRecords)
+	if err != nil {
+		return nil, err
+	}
 	records := make([]*PairAdjust, numRecords)
 	for i := 0; i < numRecords; i++ {
 		first, err := readValueRecord(p, valueFormat1)
diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index a9593fb..a39c720 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -84,6 +84,7 @@ func Read(r parser.ReadSeekSizer, tp Type) (*Info, error) {
 
 func readGtab(r parser.ReadSeekSizer, tp Type, sr subtableReader) (*Info, error) {
 	p := parser.New(r)
+	p.LimitWork(p.DefaultWork())
 
 	var header struct {
 		MajorVersion      uint16
diff --git a/parser/parser.go b/parser/parser.go
index 796f774..3ffaadb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -30,6 +30,9 @@ type Parser struct {
 	from      int64
 	pos, used int
 	lastRead  int
+
+	limited bool
+	work    int64 // remaining work, if limited is set
 }
 
 // ReadSeekSizer describes the requirements for a reader that can be used
@@ -52,6 +55,41 @@ func New(r ReadSeekSizer) *Parser {
 	return p
 }
 
+// LimitWork bounds the total amount of work done by the parser.  Offsets in a
+// malicious font can make a reader visit the same bytes again and again, so
+// that the decoded data is much larger than the input file.  Once more than n
+// units of work are used, all reads return an error.  Reading n bytes uses n+4
+// units of work.
+//
+// By default, there is no limit.
+func (p *Parser) LimitWork(n int64) {
+	p.limited = true
+	p.work = n
+}
+
+// DefaultWork returns a limit on the work for decoding the current input
+// file, which is generous for any genuine font.
+func (p *Parser) DefaultWork() int64 {
+	return 4_000_000 + 64*p.Size()
+}
+
+// UseWork records n units of work, in addition to the work for reading bytes.
+// An error is returned if the limit set by [Parser.LimitWork] is exceeded.
+func (p *Parser) UseWork(n int) error {
+	if !p.limited {
+		return nil
+	}
+	p.work -= int64(n)
+	if p.work < 0 {
+		p.work = -1
+		return &InvalidFontError{
+			SubSystem: "sfnt/parser",
+			Reason:    "table too complex",
+		}
+	}
+	return nil
+}
+
 // Size returns the total size of the underlying input file.
 func (p *Parser) Size() int64 {
 	return p.r.Size()
@@ -172,6 +210,10 @@ func (p *Parser) ReadBytes(n int) ([]byte, error) {
 		panic("buffer size exceeded")
 	}
 
+	if err := p.UseWork(n + 4); err != nil {
+		return nil, err
+	}
+
 	for p.pos+n > p.used {
 		if len(p.buf) == 0 {
 			p.buf = make([]byte, bufferSize)
-- 
2.43.0


From 06f68db7de1ef8c2162e85113710a560546f51a1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 19/57] fix: class ranges which end before they start are
 invalid

---
 opentype/classdef/classdef.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentype/classdef/classdef.go b/opentype/classdef/classdef.go
index 2360b4d..693c7b7 100644
--- a/opentype/classdef/classdef.go
+++ b/opentype/classdef/classdef.go
@@ -116,10 +116,10 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 			endGlyphID := glyph.ID(data[2])<<8 | glyph.ID(data[3])
 			classValue := uint16(data[4])<<8 | uint16(data[5])
 
-			if i > 0 && startGlyphID <= prevEnd {
+			if endGlyphID < startGlyphID || i > 0 && startGlyphID <= prevEnd {
 				return nil, &parser.InvalidFontError{
 					SubSystem: "opentype/classdef",
-					Reason:    "overlapping ranges in class definition table",
+					Reason:    "invalid ranges in class definition table",
 				}
 			}
 			prevEnd = endGlyphID
-- 
2.43.0


From 439e3826c976f359e08a88ae4d20b5d5e44fc818 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 20/57] fix: subtable formats above 9 are not confused with
 other lookup types

---
 opentype/gtab/gpos.go | 2 +-
 opentype/gtab/gsub.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index 3034b29..82cc2fc 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -43,7 +43,7 @@ func readGposSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 	}
 
 	reader, ok := gposReaders[10*meta.LookupType+format]
-	if !ok {
+	if !ok || meta.LookupType > 9 || format > 9 {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/opentype/gtab",
 			Reason: fmt.Sprintf("unknown GPOS subtable format %d.%d",
diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index c10b5cb..4b63c98 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -39,7 +39,7 @@ func readGsubSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 	}
 
 	reader, ok := gsubReaders[10*meta.LookupType+format]
-	if !ok {
+	if !ok || meta.LookupType > 9 || format > 9 {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/opentype/gtab",
 			Reason: fmt.Sprintf("unknown GSUB subtable format %d.%d",
-- 
2.43.0


From 2cb97cce00dbff9ce463be941add535492823243 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:45:57 +0000
Subject: [PATCH 21/57] fix: read and write mark-to-ligature attachment
 subtables

---
 opentype/gtab/gpos5.go | 156 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 146 insertions(+), 10 deletions(-)

diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index a7dd3ed..24b1a97 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -101,20 +101,41 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		if err != nil {
 			return nil, err
 		}
-		ligAttach := make([][]anchor.Table, componentCount)
+		numOffsets := int(componentCount) * markClassCount
+		if numOffsets > (65536-2-6)/2 {
+			// Offsets are 16-bit from ligAttachPos, and there must still be
+			// space for at least one anchor table.
+			return nil, &parser.InvalidFontError{
+				SubSystem: "sfnt/opentype/gtab",
+				Reason:    "GPOS5.1 table too large",
+			}
+		}
+		err = p.UseWork(int(componentCount))
+		if err != nil {
+			return nil, err
+		}
+		anchorOffsets := make([]uint16, numOffsets)
+		for j := range anchorOffsets {
+			anchorOffsets[j], err = p.ReadUint16()
+			if err != nil {
+				return nil, err
+			}
+		}
 
-		for j := 0; j < int(componentCount); j++ {
+		ligAttach := make([][]anchor.Table, componentCount)
+		for j := range ligAttach {
 			row := make([]anchor.Table, markClassCount)
-			for j := range row {
-				if offsets[j] == 0 {
+			for k := range row {
+				if anchorOffsets[k] == 0 {
 					continue
 				}
-				row[j], err = anchor.Read(p, ligAttachPos+int64(offsets[j]))
+				row[k], err = anchor.Read(p, ligAttachPos+int64(anchorOffsets[k]))
 				if err != nil {
 					return nil, err
 				}
 			}
-			ligAttach[i] = row
+			ligAttach[j] = row
+			anchorOffsets = anchorOffsets[markClassCount:]
 		}
 
 		ligArray[i] = ligAttach
@@ -134,12 +155,127 @@ func (l *Gpos5_1) apply(ctx *Context, a, b int) int {
 	return -1
 }
 
-// encode implements the [Subtable] interface.
-func (l *Gpos5_1) encode() []byte {
-	panic("not implemented")
+// countMarkClasses returns the number of mark classes in the table.
+func (l *Gpos5_1) countMarkClasses() int {
+	for _, lig := range l.LigArray {
+		if len(lig) > 0 {
+			return len(lig[0])
+		}
+	}
+
+	var maxClass uint16
+	for _, rec := range l.MarkArray {
+		if rec.Class > maxClass {
+			maxClass = rec.Class
+		}
+	}
+	return int(maxClass) + 1
+}
+
+// ligAttachLen returns the encoded length of a LigatureAttach table.
+func ligAttachLen(lig [][]anchor.Table) int {
+	total := 2
+	for _, row := range lig {
+		for _, rec := range row {
+			total += 2
+			if !rec.IsEmpty() {
+				total += 6
+			}
+		}
+	}
+	return total
 }
 
 // encodeLen implements the [Subtable] interface.
 func (l *Gpos5_1) encodeLen() int {
-	panic("not implemented")
+	total := 12
+	total += l.MarkCov.EncodeLen()
+	total += l.LigCov.EncodeLen()
+	total += 2 + (4+6)*len(l.MarkArray)
+
+	total += 2
+	for _, lig := range l.LigArray {
+		total += 2 + ligAttachLen(lig)
+	}
+	return total
+}
+
+// encode implements the [Subtable] interface.
+func (l *Gpos5_1) encode() []byte {
+	markCount := len(l.MarkArray)
+	markClassCount := l.countMarkClasses()
+	ligCount := len(l.LigArray)
+
+	markCoverageOffset := 12
+	ligCoverageOffset := markCoverageOffset + l.MarkCov.EncodeLen()
+	markArrayOffset := ligCoverageOffset + l.LigCov.EncodeLen()
+	ligArrayOffset := markArrayOffset + 2 + (4+6)*markCount
+
+	res := make([]byte, 0, l.encodeLen())
+	res = append(res,
+		0, 1, // posFormat
+		byte(markCoverageOffset>>8), byte(markCoverageOffset),
+		byte(ligCoverageOffset>>8), byte(ligCoverageOffset),
+		byte(markClassCount>>8), byte(markClassCount),
+		byte(markArrayOffset>>8), byte(markArrayOffset),
+		byte(ligArrayOffset>>8), byte(ligArrayOffset),
+	)
+
+	res = append(res, l.MarkCov.Encode()...)
+	res = append(res, l.LigCov.Encode()...)
+
+	res = append(res,
+		byte(markCount>>8), byte(markCount),
+	)
+	offs := 2 + 4*markCount
+	for _, rec := range l.MarkArray {
+		res = append(res,
+			byte(rec.Class>>8), byte(rec.Class),
+			byte(offs>>8), byte(offs),
+		)
+		offs += 6
+	}
+	for _, rec := range l.MarkArray {
+		res = rec.Append(res)
+	}
+
+	res = append(res,
+		byte(ligCount>>8), byte(ligCount),
+	)
+	offs = 2 + 2*ligCount
+	for _, lig := range l.LigArray {
+		res = append(res,
+			byte(offs>>8), byte(offs),
+		)
+		offs += ligAttachLen(lig)
+	}
+	for _, lig := range l.LigArray {
+		componentCount := len(lig)
+		res = append(res,
+			byte(componentCount>>8), byte(componentCount),
+		)
+		offs = 2 + 2*componentCount*markClassCount
+		for _, row := range lig {
+			for _, rec := range row {
+				if rec.IsEmpty() {
+					res = append(res, 0, 0)
+					continue
+				}
+				res = append(res,
+					byte(offs>>8), byte(offs),
+				)
+				offs += 6
+			}
+		}
+		for _, row := range lig {
+			for _, rec := range row {
+				if rec.IsEmpty() {
+					continue
+				}
+				res = rec.Append(res)
+			}
+		}
+	}
+
+	return res
 }
-- 
2.43.0


From 164f2edc367e46f88b03eedcfdd594645ed2b510 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:49:16 +0000
Subject: [PATCH 22/57] fix: kern subtables must not overlap

---
 kern/kern.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kern/kern.go b/kern/kern.go
index 7a474df..6e71c35 100644
--- a/kern/kern.go
+++ b/kern/kern.go
@@ -58,6 +58,7 @@ func Read(r parser.ReadSeekSizer) (Info, error) {
 
 	res := make(Info)
 
+	var totalPairs int64
 	pos := p.Pos()
 	for i := 0; i < int(nTables); i++ {
 		err := p.SeekPos(pos)
@@ -91,6 +92,14 @@ func Read(r parser.ReadSeekSizer) (Info, error) {
 		if err != nil {
 			return nil, err
 		}
+		totalPairs += int64(nPairs)
+		if 6*totalPairs > p.Size() {
+			// Either the data is missing, or the subtables overlap.
+			return nil, &parser.InvalidFontError{
+				SubSystem: "sfnt/kern",
+				Reason:    "too many kerning pairs",
+			}
+		}
 		err = p.Discard(6) // skip searchRange, entrySelector and rangeShift
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 949ce14a6cab93d11a77036e9b222e6461535cde Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 23/57] fix: SimpleGlyph.Decode checks the contour end points

---
 glyf/simple.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/glyf/simple.go b/glyf/simple.go
index c0dae8e..088df92 100644
--- a/glyf/simple.go
+++ b/glyf/simple.go
@@ -56,7 +56,16 @@ func (glyph *SimpleGlyph) Decode() (*GlyphInfo, error) {
 		endPtsOfContours[i] = uint16(buf[2*i])<<8 | uint16(buf[2*i+1])
 	}
 	buf = buf[2*numContours:]
-	numPoints := int(endPtsOfContours[numContours-1]) + 1
+	numPoints := 0
+	for _, endPt := range endPtsOfContours {
+		// The end points must be in increasing order, but contours may be
+		// empty.
+		end := int(endPt) + 1
+		if end < numPoints {
+			return nil, errInvalidGlyphData
+		}
+		numPoints = end
+	}
 
 	instructionLength := int(buf[0])<<8 | int(buf[1])
 	if len(buf) < 2+instructionLength {
-- 
2.43.0


From d7d4aaca4d408f9139bafe66c5e7a08dddc833e3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 24/57] fix: bound the amount of data decoded from overlapping
 names

---
 name/name.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/name/name.go b/name/name.go
index 6515f8c..385e848 100644
--- a/name/name.go
+++ b/name/name.go
@@ -75,6 +75,9 @@ func Decode(data []byte) (*Info, error) {
 	macTables := make(map[string]*Table)
 	msTables := make(map[string]*Table)
 
+	// Strings can overlap.  This bounds the total amount of decoded data.
+	available := 1<<20 + 16*len(data)
+
 recLoop:
 	for i := 0; i < numRec; i++ {
 		pos := recBase + i*12
@@ -100,6 +103,10 @@ recLoop:
 		if storageOffset+nameOffset+nameLen > len(data) {
 			return nil, errMalformedNames
 		}
+		available -= nameLen
+		if available < 0 {
+			return nil, errMalformedNames
+		}
 		nameBytes := data[storageOffset+nameOffset : storageOffset+nameOffset+nameLen]
 
 		// We ignore encodings we don't understand.
-- 
2.43.0


From 81c74a882fc307883c75a44eb2228d22dfe96d67 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:50:14 +0000
Subject: [PATCH 25/57] fix: Font.Widths works for TrueType fonts without hmtx
 table

---
 font.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/font.go b/font.go
index 95e0adb..3988229 100644
--- a/font.go
+++ b/font.go
@@ -263,6 +263,9 @@ func (f *Font) Widths() []float64 {
 		}
 		return widths
 	case *glyf.Outlines:
+		if outlines.Widths == nil {
+			return widths
+		}
 		for i := range widths {
 			widths[i] = float64(outlines.Widths[i])
 		}
-- 
2.43.0


From d1aeed85e00e67dc2e34615544f2f1c807660a2c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:51:49 +0000
Subject: [PATCH 26/57] fix: Font.GlyphName works for short name lists

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 3988229..37d2ce7 100644
--- a/font.go
+++ b/font.go
@@ -425,7 +425,7 @@ func (f *Font) GlyphName(gid glyph.ID) string {
 	case *cff.Outlines:
 		return f.Glyphs[gid].Name
 	case *glyf.Outlines:
-		if f.Names == nil {
+		if int(gid) >= len(f.Names) {
 			return ""
 		}
 		return f.Names[gid]
-- 
2.43.0


From ec7a17c8dbf7fa58a47d5e9888c9952650f86a26 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:52:37 +0000
Subject: [PATCH 27/57] fix: bound the work done by nested CFF subroutines

---
 cff/read.go     |  3 +++
 cff/t2decode.go | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/cff/read.go b/cff/read.go
index 53da4bf..6f36be7 100644
--- a/cff/read.go
+++ b/cff/read.go
@@ -35,6 +35,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 	}
 
 	p := parser.New(r)
+	p.LimitWork(p.DefaultWork())
 
 	// section 0: header
 	x, err := p.ReadUint32()
@@ -187,6 +188,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 				gsubr:        gsubrs,
 				defaultWidth: pInfo.defaultWidth,
 				nominalWidth: pInfo.nominalWidth,
+				work:         p,
 			})
 		}
 
@@ -271,6 +273,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 			gsubr:        gsubrs,
 			defaultWidth: pInfo.defaultWidth,
 			nominalWidth: pInfo.nominalWidth,
+			work:         p,
 		})
 	}
 
diff --git a/cff/t2decode.go b/cff/t2decode.go
index 9792159..40d029a 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -20,6 +20,8 @@ import (
 	"errors"
 	"fmt"
 	"math"
+
+	"seehuhn.de/go/sfnt/parser"
 )
 
 type decodeInfo struct {
@@ -27,6 +29,11 @@ type decodeInfo struct {
 	gsubr        cffIndex
 	defaultWidth float64
 	nominalWidth float64
+
+	// Work, if not nil, is used to limit the total number of operations in the
+	// charstrings of a font.  Since subroutines can be nested, short
+	// charstrings can expand to extremely long glyph descriptions.
+	work *parser.Parser
 }
 
 type ccStage int
@@ -116,6 +123,12 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 			if len(stack) > maxStack {
 				return nil, errStackOverflow
 			}
+			if info.work != nil {
+				err := info.work.UseWork(2)
+				if err != nil {
+					return nil, err
+				}
+			}
 
 			op := t2op(code[0])
 
@@ -405,6 +418,12 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 					return nil, errIncomplete
 				}
 
+				if info.work != nil {
+					err := info.work.UseWork(k)
+					if err != nil {
+						return nil, err
+					}
+				}
 				cmd := GlyphOp{
 					Op: OpHintMask,
 				}
-- 
2.43.0


From 1960eb2e634a6cb28932768573ac957675d6fe0a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:55:00 +0000
Subject: [PATCH 28/57] fix: check the size of the Private DICT before
 allocating memory

---
 cff/dict.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cff/dict.go b/cff/dict.go
index 76c3194..141c8a7 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -528,7 +528,7 @@ func (d cffDict) readPrivate(p *parser.Parser, strings *cffStrings) (*privateInf
 	// TODO(voss): handle the font matrix
 
 	pdSize, pdOffs, ok := d.getPair(opPrivate)
-	if !ok || pdOffs < 4 || pdSize < 0 {
+	if !ok || pdOffs < 4 || pdSize < 0 || int64(pdSize) > p.Size() {
 		return nil, errors.New("cff: missing Private DICT")
 	}
 
-- 
2.43.0


From 25e3264eda3f28ed9403ce8deba3dc533f0c2759 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:57:08 +0000
Subject: [PATCH 29/57] fix: read fonts where all glyphs are blank

---
 read.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index eff0cae..9707d89 100644
--- a/read.go
+++ b/read.go
@@ -74,7 +74,9 @@ func Read(r io.Reader) (*Font, error) {
 		return nil, fmt.Errorf("sfnt header: %w", err)
 	}
 
-	if !(dir.Has("glyf", "loca") || dir.Has("CFF ")) {
+	// If all glyphs are blank, the "glyf" table is empty.
+	_, hasGlyf := dir.Toc["glyf"]
+	if !(hasGlyf && dir.Has("loca") || dir.Has("CFF ")) {
 		if dir.Has("CFF2") {
 			return nil, &parser.NotSupportedError{
 				SubSystem: "sfnt",
-- 
2.43.0


From 986071986798b6539a11b904f0e2ef9af054f9a9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:57:08 +0000
Subject: [PATCH 30/57] fix: do not count absent tables in the sfnt header

---
 header/write.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/header/write.go b/header/write.go
index e46b5e3..d0583f6 100644
--- a/header/write.go
+++ b/header/write.go
@@ -29,14 +29,13 @@ import (
 // to write a table with no data.
 // This changes the checksum in the "head" table in place.
 func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, error) {
-	numTables := len(tables)
-
-	tableNames := make([]string, 0, numTables)
+	tableNames := make([]string, 0, len(tables))
 	for name, data := range tables {
 		if data != nil && len(name) == 4 {
 			tableNames = append(tableNames, name)
 		}
 	}
+	numTables := len(tableNames)
 
 	// sort the table names in the recommended order
 	sort.Slice(tableNames, func(i, j int) bool {
@@ -49,7 +48,7 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	})
 
 	// prepare the header
-	entrySelector := bits.Len(uint(numTables)) - 1
+	entrySelector := max(bits.Len(uint(numTables))-1, 0)
 	header := &offsets{
 		ScalerType:    scalerType,
 		NumTables:     uint16(numTables),
-- 
2.43.0


From 887a57cd7323cb52eed0da76b8b01543cf259f63 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:58:43 +0000
Subject: [PATCH 31/57] fix: accept io.ReaderAt which returns io.EOF together
 with the last byte

---
 header/tables.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/header/tables.go b/header/tables.go
index 8ae0c9e..e00bf8a 100644
--- a/header/tables.go
+++ b/header/tables.go
@@ -149,7 +149,11 @@ func Read(r io.ReaderAt) (*Info, error) {
 			}
 		}
 	}
-	_, err = r.ReadAt(buf[:1], int64(coverage[len(coverage)-1].End)-1)
+	n, err := r.ReadAt(buf[:1], int64(coverage[len(coverage)-1].End)-1)
+	if n == 1 {
+		// At the end of the input, ReadAt may return both data and io.EOF.
+		err = nil
+	}
 	if err == io.EOF {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/header",
-- 
2.43.0


From 2c49c263cc711b9957d9865fc19147128d04a49c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:58:43 +0000
Subject: [PATCH 32/57] fix: use the UTC date in the font identifier

---
 write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/write.go b/write.go
index 01e0a03..291d901 100644
--- a/write.go
+++ b/write.go
@@ -272,7 +272,7 @@ func (f *Font) makeName() []byte {
 	if day.IsZero() {
 		day = time.Now()
 	}
-	dayString := day.Format("2006-01-02")
+	dayString := day.UTC().Format("2006-01-02")
 
 	fullName := f.FullName()
 	nameTable := &name.Table{
-- 
2.43.0


From fd4d2c8832204dcdc71be81ea270019c2f5b05f8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:58:43 +0000
Subject: [PATCH 33/57] fix: versions above 65535.9995 no longer wrap around

---
 head/head.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/head/head.go b/head/head.go
index de82167..ac31cd3 100644
--- a/head/head.go
+++ b/head/head.go
@@ -219,7 +219,7 @@ func VersionFromString(s string) (Version, error) {
 	if err != nil {
 		return 0, errInvalidVersion
 	}
-	return Version(ver*65536 + 0.5), nil
+	return versionFromFloat(ver), nil
 }
 
 func (v Version) String() string {
@@ -230,7 +230,16 @@ func (v Version) String() string {
 // representation.
 func (v Version) Round() Version {
 	x := math.Round(float64(v)/65536*1000) / 1000
-	return Version(math.Round(x * 65536))
+	return versionFromFloat(x)
+}
+
+// versionFromFloat converts x to the nearest representable version.
+func versionFromFloat(x float64) Version {
+	x = math.Floor(x*65536 + 0.5)
+	if x > math.MaxUint32 {
+		return math.MaxUint32
+	}
+	return Version(x)
 }
 
 var versionPat = regexp.MustCompile(`^(?:Version )?(\d+\.?\d+)`)
-- 
2.43.0


From 706a1cb23f26588b2d93d253ee7033cdb99b7cfd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:59:37 +0000
Subject: [PATCH 34/57] fix: keep font matrices which are close to the default

---
 cff/dict.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cff/dict.go b/cff/dict.go
index 141c8a7..9971ba5 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -443,7 +443,7 @@ func (d cffDict) setFontMatrix(op dictOp, fm matrix.Matrix, isCIDKeyed bool) {
 		} else {
 			def = defaultFontMatrix[i]
 		}
-		if math.Abs(xi-def) > 1e-5 {
+		if xi != def {
 			needed = true
 			break
 		}
-- 
2.43.0


From 8c93f2093fd28fdeb55c9131b30f945424123f1d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:00:05 +0000
Subject: [PATCH 35/57] fix: standard ligatures and legacy kerning are optional
 features

---
 ligatures.go | 2 +-
 read.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ligatures.go b/ligatures.go
index 2497dad..af3fc4b 100644
--- a/ligatures.go
+++ b/ligatures.go
@@ -75,7 +75,7 @@ ligLoop:
 	}
 	gsub := &gtab.Info{
 		ScriptList: map[language.Tag]*gtab.Features{
-			language.MustParse("und-Latn-x-latn"): {Optional: []gtab.FeatureIndex{0}},
+			language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}},
 		},
 		FeatureList: []*gtab.Feature{
 			{Tag: "liga", Lookups: []gtab.LookupIndex{0}},
diff --git a/read.go b/read.go
index 9707d89..f16bd6e 100644
--- a/read.go
+++ b/read.go
@@ -507,7 +507,7 @@ func Read(r io.Reader) (*Font, error) {
 		}
 		info.Gpos = &gtab.Info{
 			ScriptList: map[language.Tag]*gtab.Features{
-				language.MustParse("und-Zzzz"): {Required: 0, Optional: []gtab.FeatureIndex{}},
+				language.MustParse("und-Zzzz-x-dflt"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}},
 			},
 			FeatureList: []*gtab.Feature{
 				{Tag: "kern", Lookups: []gtab.LookupIndex{0}},
-- 
2.43.0


From 5453bc818b93b05e56d455bb09a38adcf357a260 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:00:05 +0000
Subject: [PATCH 36/57] fix: TrueType fonts without hmtx table have zero widths

---
 read.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/read.go b/read.go
index f16bd6e..7691604 100644
--- a/read.go
+++ b/read.go
@@ -271,6 +271,8 @@ func Read(r io.Reader) (*Font, error) {
 		var widths []funit.Int16
 		if hmtxInfo != nil && len(hmtxInfo.Widths) > 0 {
 			widths = hmtxInfo.Widths
+		} else {
+			widths = make([]funit.Int16, len(ttGlyphs))
 		}
 
 		var names []string
-- 
2.43.0


From 5f5404b8f3b07f0e0fd651cb9b1606d8c3f48ab5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:00:05 +0000
Subject: [PATCH 37/57] fix: use the default script as the default language
 system

---
 opentype/gtab/lookup.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index 13d0dc9..4fdec63 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -583,10 +583,13 @@ func (info *Info) FindLookups(lang language.Tag, includeFeature map[string]bool)
 	// The first tag is used as the default in case there is no match.  We use
 	// the default script here, if possible.  The order of the remaining tags
 	// is fixed, so that the result does not depend on the map iteration order.
-	defaultTag := language.MustParse("und-Zzzz")
+	isDefault := func(tag language.Tag) bool {
+		s := tag.String()
+		return s == "und-Zzzz" || s == "und-Zzzz-x-dflt"
+	}
 	sort.Slice(tags, func(i, j int) bool {
-		if (tags[i] == defaultTag) != (tags[j] == defaultTag) {
-			return tags[i] == defaultTag
+		if isDefault(tags[i]) != isDefault(tags[j]) {
+			return isDefault(tags[i])
 		}
 		return tags[i].String() < tags[j].String()
 	})
-- 
2.43.0


From 27ea32ae72416f903a0ac13ee4a768b861022b8e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:07:41 +0000
Subject: [PATCH 38/57] fix: do not override the bold flag of the OS/2 table

---
 read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 7691604..6641a67 100644
--- a/read.go
+++ b/read.go
@@ -424,7 +424,7 @@ func Read(r io.Reader) (*Font, error) {
 		info.IsBold = headInfo.IsBold
 	}
 	// TODO(voss): we could also check info.Weight == font.WeightBold
-	if nameTable != nil &&
+	if os2Info == nil && nameTable != nil &&
 		strings.Contains(nameTable.Subfamily, "Bold") &&
 		!strings.Contains(nameTable.Subfamily, "Semi Bold") &&
 		!strings.Contains(nameTable.Subfamily, "Extra Bold") {
-- 
2.43.0


From bd99c68527c137ef282082fa603fb0a213171e28 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:36:14 +0000
Subject: [PATCH 39/57] fix: reject lookups which cannot be encoded without
 overlapping data

---
 opentype/gtab/gpos.go      |  10 ++-
 opentype/gtab/gsub.go      |  10 ++-
 opentype/gtab/maxoffset.go | 123 +++++++++++++++++++++++++++++++++++++
 3 files changed, 141 insertions(+), 2 deletions(-)
 create mode 100644 opentype/gtab/maxoffset.go

diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index 82cc2fc..63ce9df 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -50,7 +50,15 @@ func readGposSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 				meta.LookupType, format),
 		}
 	}
-	return reader(p, pos)
+	subtable, err := reader(p, pos)
+	if err != nil {
+		return nil, err
+	}
+	err = checkOffsets(subtable, "GPOS", meta.LookupType, format)
+	if err != nil {
+		return nil, err
+	}
+	return subtable, nil
 }
 
 // https://docs.microsoft.com/en-us/typography/opentype/spec/gpos#gsubLookupTypeEnum
diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 4b63c98..508d600 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -46,7 +46,15 @@ func readGsubSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 				meta.LookupType, format),
 		}
 	}
-	return reader(p, pos)
+	subtable, err := reader(p, pos)
+	if err != nil {
+		return nil, err
+	}
+	err = checkOffsets(subtable, "GSUB", meta.LookupType, format)
+	if err != nil {
+		return nil, err
+	}
+	return subtable, nil
 }
 
 var gsubReaders = map[uint16]func(p *parser.Parser, pos int64) (Subtable, error){
diff --git a/opentype/gtab/maxoffset.go b/opentype/gtab/maxoffset.go
new file mode 100644
index 0000000..57a48ae
--- /dev/null
+++ b/opentype/gtab/maxoffset.go
@@ -0,0 +1,123 @@
+// seehuhn.de/go/sfnt - a library for reading and writing font files
+// Copyright (C) 2024  Jochen Voss <voss@seehuhn.de>
+//
+// This program is free software: you can redistribute it and/or modify
+// it under the terms of the GNU General Public License as published by
+// the Free Software Foundation, either version 3 of the License, or
+// (at your option) any later version.
+//
+// This program is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU General Public License for more details.
+//
+// You should have received a copy of the GNU General Public License
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
+
+package gtab
+
+import (
+	"fmt"
+
+	"seehuhn.de/go/sfnt/parser"
+)
+
+// checkOffsets returns an error, if some of the 16-bit offsets in the subtable
+// would overflow when the subtable is encoded without overlapping data.
+func checkOffsets(subtable Subtable, tp string, lookupType, format uint16) error {
+	l, ok := subtable.(interface{ maxOffset() int })
+	if !ok || l.maxOffset() <= 0xFFFF {
+		return nil
+	}
+	return &parser.InvalidFontError{
+		SubSystem: "sfnt/opentype/gtab",
+		Reason:    fmt.Sprintf("%s %d.%d subtable too large", tp, lookupType, format),
+	}
+}
+
+// The following methods return (an upper bound for) the largest offset used
+// in the encoded form of the subtable.
+
+func (l *Gsub1_2) maxOffset() int { return l.encodeLen() - l.Cov.EncodeLen() }
+
+func (l *Gsub2_1) maxOffset() int { return l.encodeLen() - l.Cov.EncodeLen() }
+
+func (l *Gsub3_1) maxOffset() int { return l.encodeLen() - l.Cov.EncodeLen() }
+
+func (l *Gsub8_1) maxOffset() int {
+	last := l.Input
+	if k := len(l.Lookahead); k > 0 {
+		last = l.Lookahead[k-1]
+	} else if k := len(l.Backtrack); k > 0 {
+		last = l.Backtrack[k-1]
+	}
+	return l.encodeLen() - last.EncodeLen()
+}
+
+func (l *Gpos1_2) maxOffset() int { return l.encodeLen() - l.Cov.EncodeLen() }
+
+func (l Gpos2_1) maxOffset() int {
+	total := l.encodeLen()
+	if total <= 0xFFFF {
+		return total
+	}
+
+	// the pair set for the last glyph comes at the end
+	_, adjust := l.CovAndAdjust()
+	var valueFormat1, valueFormat2 uint16
+	for _, v := range l {
+		valueFormat1 |= v.First.getFormat()
+		valueFormat2 |= v.Second.getFormat()
+	}
+	var vr *GposValueRecord
+	recLen := 2 + vr.encodeLen(valueFormat1) + vr.encodeLen(valueFormat2)
+	return total - 2 - len(adjust[len(adjust)-1])*recLen
+}
+
+func (l *Gpos2_2) maxOffset() int { return l.encodeLen() - l.Class2.AppendLen() }
+
+func (l *Gpos3_1) maxOffset() int { return l.encodeLen() - l.Cov.EncodeLen() }
+
+func (l *Gpos4_1) maxOffset() int {
+	base := ligAttachLen(l.BaseArray) // the two table types have the same structure
+	return max(l.encodeLen()-base, 2+10*len(l.MarkArray)-6, base-6)
+}
+
+func (l *Gpos5_1) maxOffset() int {
+	ligArrayLen := 2
+	last := 0
+	res := 0
+	for _, lig := range l.LigArray {
+		last = ligAttachLen(lig)
+		ligArrayLen += 2 + last
+		res = max(res, last-6)
+	}
+	return max(res, l.encodeLen()-ligArrayLen, 2+10*len(l.MarkArray)-6, ligArrayLen-last)
+}
+
+func (l *Gpos6_1) maxOffset() int {
+	mark2 := ligAttachLen(l.Mark2Array)
+	return max(l.encodeLen()-mark2, 2+10*len(l.Mark1Array)-6, mark2-6)
+}
+
+func (l *SeqContext1) maxOffset() int { return l.encodeLen() - l.Cov.EncodeLen() }
+
+func (l *SeqContext3) maxOffset() int {
+	total := l.encodeLen()
+	if k := len(l.Input); k > 0 {
+		total -= l.Input[k-1].ToTable().EncodeLen()
+	}
+	return total
+}
+
+func (l *ChainedSeqContext3) maxOffset() int {
+	total := l.encodeLen()
+	if k := len(l.Lookahead); k > 0 {
+		total -= l.Lookahead[k-1].ToTable().EncodeLen()
+	} else if k := len(l.Input); k > 0 {
+		total -= l.Input[k-1].ToTable().EncodeLen()
+	} else if k := len(l.Backtrack); k > 0 {
+		total -= l.Backtrack[k-1].ToTable().EncodeLen()
+	}
+	return total
+}
-- 
2.43.0


From d176c5d1c75ee6b80fd529a59849b11233bde528 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:42:46 +0000
Subject: [PATCH 40/57] fix: reject script and feature lists which cannot be
 encoded without overlapping data

---
 opentype/gtab/gtab.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index a39c720..6e1d659 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -152,6 +152,14 @@ func readGtab(r parser.ReadSeekSizer, tp Type, sr subtableReader) (*Info, error)
 	if err != nil {
 		return nil, err
 	}
+	if 10+len(info.ScriptList.encode())+len(info.FeatureList.encode()) > 0xFFFF {
+		// This would be the lookup list offset, when encoding the table
+		// without overlapping data.
+		return nil, &parser.InvalidFontError{
+			SubSystem: "sfnt/opentype/gtab",
+			Reason:    "script and feature lists too large",
+		}
+	}
 	info.LookupList, err = readLookupList(p, int64(header.LookupListOffset), sr)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c88ee2af094c95f287944309f734748a6ac528fb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:42:46 +0000
Subject: [PATCH 41/57] fix: use extension subtables wherever subtable offsets
 overflow

---
 opentype/gtab/lookup.go | 95 ++++++++++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 29 deletions(-)

diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index 4fdec63..c7640bc 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -314,9 +314,23 @@ findTypeLoop:
 			case *Gsub1_1, *Gsub1_2, *Gsub2_1, *Gsub3_1, *Gsub4_1, *Gsub8_1:
 				extLookupType = gsubExtensionLookupType
 				break findTypeLoop
-			case *Gpos1_1, *Gpos1_2, *Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
+			case *Gpos1_1, *Gpos1_2, Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
 				extLookupType = gposExtensionLookupType
 				break findTypeLoop
+			case *SeqContext1, *SeqContext2, *SeqContext3:
+				if l.Meta.LookupType == 7 {
+					extLookupType = gposExtensionLookupType
+				} else {
+					extLookupType = gsubExtensionLookupType
+				}
+				break findTypeLoop
+			case *ChainedSeqContext1, *ChainedSeqContext2, *ChainedSeqContext3:
+				if l.Meta.LookupType == 8 {
+					extLookupType = gposExtensionLookupType
+				} else {
+					extLookupType = gsubExtensionLookupType
+				}
+				break findTypeLoop
 			}
 		}
 	}
@@ -356,12 +370,19 @@ findTypeLoop:
 
 	// If needed, reorder the chunks or introduce extension records.
 	isTooLarge := false
-	var total uint32
+	var total, tablePos uint32
 	for i := range chunks {
 		code := chunks[i].code
-		if code&chunkTypeMask == chunkTable && total > 0xFFFF {
-			isTooLarge = true
-			break
+		switch code & chunkTypeMask {
+		case chunkTable:
+			tablePos = total
+			if total > 0xFFFF {
+				isTooLarge = true
+			}
+		case chunkSubtable:
+			if total-tablePos > 0xFFFF {
+				isTooLarge = true
+			}
 		}
 		total += chunks[i].size
 	}
@@ -453,6 +474,7 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 	}
 
 	lookupSize := make(map[chunkCode]uint32)
+	lastOffset := make(map[chunkCode]uint32)
 	var lookups []chunkCode
 	for i := range chunks {
 		code := chunks[i].code
@@ -462,9 +484,37 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 			continue
 		} else if tp == chunkTable {
 			lookups = append(lookups, tCode)
+		} else {
+			lastOffset[tCode] = lookupSize[tCode]
 		}
 		lookupSize[tCode] += chunks[i].size
 	}
+
+	// The size of a lookup, if all subtables are replaced with extension
+	// subtables.
+	replacedSize := func(tCode chunkCode) uint32 {
+		l := ll[tCode>>14]
+		lookupHeaderLen := 6 + 2*len(l.Subtables)
+		if l.Meta.LookupFlags&UseMarkFilteringSet != 0 {
+			lookupHeaderLen += 2
+		}
+		return uint32(lookupHeaderLen) + 8*uint32(len(l.Subtables))
+	}
+
+	// Lookups where the subtable offsets are too large always need extension
+	// subtables.
+	replace := make(map[chunkCode]bool)
+	extra := 0
+	for _, tCode := range lookups {
+		if lastOffset[tCode] > 0xFFFF {
+			newSize := replacedSize(tCode)
+			replace[tCode] = true
+			extra += len(ll[tCode>>14].Subtables)
+			total -= lookupSize[tCode] - newSize
+			lookupSize[tCode] = newSize
+		}
+	}
+
 	sort.SliceStable(lookups, func(i, j int) bool {
 		return lookupSize[lookups[i]] < lookupSize[lookups[j]]
 	})
@@ -474,22 +524,15 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 	biggestLookup := lookups[len(lookups)-1]
 	lastPos := total - lookupSize[biggestLookup]
 	idx := len(lookups) - 2
-	replace := make(map[chunkCode]bool)
-	extra := 0
 	for lastPos > 0xFFFF && idx >= 0 {
 		tCode := lookups[idx]
 
 		oldSize := lookupSize[tCode]
-		l := ll[tCode>>14]
-		lookupHeaderLen := 6 + 2*len(l.Subtables)
-		if l.Meta.LookupFlags&UseMarkFilteringSet != 0 {
-			lookupHeaderLen += 2
-		}
-		newSize := uint32(lookupHeaderLen) + 8*uint32(len(l.Subtables))
+		newSize := replacedSize(tCode)
 
 		if newSize < oldSize {
 			replace[tCode] = true
-			extra += len(l.Subtables)
+			extra += len(ll[tCode>>14].Subtables)
 			lastPos -= oldSize - newSize
 		}
 
@@ -505,23 +548,17 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 		code := chunk.code
 		tp := code & chunkTypeMask
 		tCode := code & chunkTableMask
-		switch {
-		case tp == chunkHeader:
-			res = append(res, chunk)
-		case tCode == biggestLookup:
-			moved = append(moved, chunk)
-		case replace[tCode]:
+		if tp == chunkSubtable && replace[tCode] {
 			sCode := code & chunkSubtableMask
-			if tp == chunkSubtable {
-				res = append(res, layoutChunk{
-					code: chunkExtReplace | tCode | sCode,
-					size: 8,
-				})
-				ext = append(ext, chunk)
-			} else {
-				res = append(res, chunk)
+			ext = append(ext, chunk)
+			chunk = layoutChunk{
+				code: chunkExtReplace | tCode | sCode,
+				size: 8,
 			}
-		default:
+		}
+		if tp != chunkHeader && tCode == biggestLookup {
+			moved = append(moved, chunk)
+		} else {
 			res = append(res, chunk)
 		}
 	}
-- 
2.43.0


From 39ecca6c434d90e26f4cc8e4300ae33f4a4c651d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:46:40 +0000
Subject: [PATCH 42/57] fix: encode language systems in a reproducible way

---
 opentype/gtab/locale.go     | 12 ++++++++----
 opentype/gtab/scriptlist.go | 21 +++++++++++++++++++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/opentype/gtab/locale.go b/opentype/gtab/locale.go
index 01b5e93..2c97d47 100644
--- a/opentype/gtab/locale.go
+++ b/opentype/gtab/locale.go
@@ -87,21 +87,25 @@ func bcp47ToOtf(tag language.Tag) (otfScript, otfLang, error) {
 		scriptTag, _ := tag.Script()
 		bcpScript := scriptTag.String()
 
+		// If there is more than one match, use the first one in alphabetical
+		// order.
 		for key, val := range langBcp47 {
-			if val == bcpLang {
+			if val == bcpLang && (lang == "" || string(key) < lang) {
 				lang = string(key)
-				break
 			}
 		}
 
 		for key, val := range scriptBcp47 {
-			if val == bcpScript {
+			if val == bcpScript && (script == "" || string(key) < script) {
 				script = string(key)
-				break
 			}
 		}
 	}
 
+	if len(script) != 4 || lang != "" && len(lang) != 4 {
+		return "", "", fmt.Errorf("no OpenType language system for BCP47 tag %q", tag)
+	}
+
 	return otfScript(script), otfLang(lang), nil
 }
 
diff --git a/opentype/gtab/scriptlist.go b/opentype/gtab/scriptlist.go
index 51de9bc..1ea6849 100644
--- a/opentype/gtab/scriptlist.go
+++ b/opentype/gtab/scriptlist.go
@@ -19,6 +19,7 @@ package gtab
 import (
 	"sort"
 
+	"golang.org/x/exp/maps"
 	"golang.org/x/text/language"
 	"seehuhn.de/go/sfnt/parser"
 )
@@ -210,13 +211,29 @@ func (info ScriptListInfo) encode() []byte {
 		return nil
 	}
 
+	tags := maps.Keys(info)
+	sort.Slice(tags, func(i, j int) bool {
+		return tags[i].String() < tags[j].String()
+	})
+
+	type scriptLang struct {
+		script otfScript
+		lang   otfLang
+	}
+	seen := map[scriptLang]bool{}
 	scriptLangs := map[otfScript][]language.Tag{}
-	for tag := range info {
-		script, _, err := bcp47ToOtf(tag)
+	for _, tag := range tags {
+		script, lang, err := bcp47ToOtf(tag)
 		if err != nil {
 			// TODO(voss): what to do here?
 			continue
 		}
+		key := scriptLang{script, lang}
+		if seen[key] {
+			// The file format allows only one entry for each language system.
+			continue
+		}
+		seen[key] = true
 		scriptLangs[script] = append(scriptLangs[script], tag)
 	}
 
-- 
2.43.0


From 6320ad5353e1b4c7dc2794eb0c2309fc80912220 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:46:56 +0000
Subject: [PATCH 43/57] fix: keep language systems for the scripts lao, nko,
 vai and yi

---
 opentype/gtab/locale.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/locale.go b/opentype/gtab/locale.go
index 2c97d47..f7c6366 100644
--- a/opentype/gtab/locale.go
+++ b/opentype/gtab/locale.go
@@ -41,7 +41,7 @@ func otfToBCP47(script otfScript, lang otfLang) (language.Tag, error) {
 		tag += "-" + bcpScript
 	}
 
-	tag += "-x-" + string(script)
+	tag += "-x-" + strings.TrimRight(string(script), " ")
 	for len(lang) > 0 && lang[len(lang)-1] == ' ' {
 		lang = lang[:len(lang)-1]
 	}
@@ -66,6 +66,9 @@ func bcp47ToOtf(tag language.Tag) (otfScript, otfLang, error) {
 		if script == "dflt" {
 			script = "DFLT"
 		}
+		for len(script) < 4 {
+			script += " "
+		}
 		if len(m) > 2 {
 			lang = strings.ToUpper(m[2])
 			for len(lang) < 4 {
-- 
2.43.0


From eb05cb3eaa75b65c9b68e2917b6ea03e3c17e62d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:24:46 +0000
Subject: [PATCH 44/57] fix: write class definition tables which cover all
 65536 glyphs

---
 opentype/classdef/classdef.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opentype/classdef/classdef.go b/opentype/classdef/classdef.go
index 693c7b7..0a78452 100644
--- a/opentype/classdef/classdef.go
+++ b/opentype/classdef/classdef.go
@@ -20,6 +20,7 @@ package classdef
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"seehuhn.de/go/sfnt/glyph"
@@ -162,7 +163,12 @@ func (info Table) getEncInfo() *encInfo {
 		}
 	}
 
-	format1Size := 6 + 2*(int(maxGid)-int(minGid)+1)
+	glyphCount := int(maxGid) - int(minGid) + 1
+	format1Size := 6 + 2*glyphCount
+	if glyphCount > 0xFFFF {
+		// The glyph count does not fit into the 16 bits available in format 1.
+		format1Size = math.MaxInt
+	}
 
 	segCount := 0
 	segStart := -1
-- 
2.43.0


From ea50ba963f89c1425a29e45878822b610fb23ce7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:24:46 +0000
Subject: [PATCH 45/57] fix: keep offsets in large GDEF tables below 64 KB

---
 opentype/gdef/gdef.go | 147 ++++++++++++++++++++++++++++++------------
 1 file changed, 107 insertions(+), 40 deletions(-)

diff --git a/opentype/gdef/gdef.go b/opentype/gdef/gdef.go
index 6bdddd5..db007c2 100644
--- a/opentype/gdef/gdef.go
+++ b/opentype/gdef/gdef.go
@@ -19,6 +19,7 @@ package gdef
 
 import (
 	"fmt"
+	"sort"
 
 	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/opentype/classdef"
@@ -136,40 +137,97 @@ func Read(r parser.ReadSeekSizer) (*Table, error) {
 
 	_ = itemVarStoreOffset // TODO(voss): implement
 
+	if _, ok := table.layout(); !ok {
+		return nil, &parser.InvalidFontError{
+			SubSystem: "sfnt/opentype/gdef",
+			Reason:    "GDEF table too large",
+		}
+	}
+
 	return table, nil
 }
 
-// Encode converts the GDEF table to its binary form.
-func (table *Table) Encode() []byte {
-	version := uint32(0x00010000)
-	total := 12
+// section indicates one of the top-level pieces of a GDEF table.
+type section int
 
-	if table.MarkGlyphSets != nil {
-		version = 0x00010002
-		total = 14
-	}
+const (
+	glyphClassSection section = iota
+	markAttachSection
+	markGlyphSetsSection
+	numSections
+)
+
+// tableLayout describes the positions of the sections inside a GDEF table.
+type tableLayout struct {
+	order  [numSections]section
+	offset [numSections]int // 0 for missing sections
+	total  int
+}
 
-	var glyphClassDefOffset int
+// layout determines where the individual sections are stored.  The boolean
+// indicates whether all offsets fit into the 16 bits available.
+func (table *Table) layout() (*tableLayout, bool) {
+	headerLen := 12
+	var length [numSections]int
 	if table.GlyphClass != nil {
-		glyphClassDefOffset = total
-		total += table.GlyphClass.AppendLen()
+		length[glyphClassSection] = table.GlyphClass.AppendLen()
 	}
-	var markAttachClassDefOffset int
 	if table.MarkAttachClass != nil {
-		markAttachClassDefOffset = total
-		total += table.MarkAttachClass.AppendLen()
+		length[markAttachSection] = table.MarkAttachClass.AppendLen()
 	}
-	var markGlyphSetsDefOffset int
 	if table.MarkGlyphSets != nil {
-		markGlyphSetsDefOffset = total
-		total += 4 + 4*len(table.MarkGlyphSets)
+		headerLen = 14
+		k := 4 + 4*len(table.MarkGlyphSets)
 		for _, set := range table.MarkGlyphSets {
-			cov := set.ToTable()
-			total += cov.EncodeLen()
+			k += set.ToTable().EncodeLen()
+		}
+		length[markGlyphSetsSection] = k
+	}
+
+	res := &tableLayout{
+		order: [numSections]section{glyphClassSection, markAttachSection, markGlyphSetsSection},
+	}
+	place := func() bool {
+		ok := true
+		res.total = headerLen
+		for _, s := range res.order {
+			res.offset[s] = 0
+			if length[s] == 0 {
+				continue
+			}
+			res.offset[s] = res.total
+			if res.total > 0xFFFF {
+				ok = false
+			}
+			res.total += length[s]
 		}
+		return ok
+	}
+
+	ok := place()
+	if !ok {
+		// Try again, with the longest sections at the end.
+		sort.SliceStable(res.order[:], func(i, j int) bool {
+			return length[res.order[i]] < length[res.order[j]]
+		})
+		ok = place()
 	}
+	return res, ok
+}
 
-	buf := make([]byte, 12, total)
+// Encode converts the GDEF table to its binary form.
+func (table *Table) Encode() []byte {
+	version := uint32(0x00010000)
+	if table.MarkGlyphSets != nil {
+		version = 0x00010002
+	}
+
+	layout, _ := table.layout()
+	glyphClassDefOffset := layout.offset[glyphClassSection]
+	markAttachClassDefOffset := layout.offset[markAttachSection]
+	markGlyphSetsDefOffset := layout.offset[markGlyphSetsSection]
+
+	buf := make([]byte, 12, layout.total)
 	// We always write table version 1.0:
 	buf[0] = byte(version >> 24)
 	buf[1] = byte(version >> 16)
@@ -182,32 +240,41 @@ func (table *Table) Encode() []byte {
 	if version >= 0x00010002 {
 		buf = append(buf, byte(markGlyphSetsDefOffset>>8), byte(markGlyphSetsDefOffset))
 	}
-	if glyphClassDefOffset > 0 {
-		buf = table.GlyphClass.Append(buf)
-	}
-	if markAttachClassDefOffset > 0 {
-		buf = table.MarkAttachClass.Append(buf)
-	}
-	if markGlyphSetsDefOffset > 0 {
-		markGlyphSetCount := len(table.MarkGlyphSets)
-		buf = append(buf,
-			0, 1, // format
-			byte(markGlyphSetCount>>8), byte(markGlyphSetCount))
-		offs := 4 + 4*markGlyphSetCount
-		for _, set := range table.MarkGlyphSets {
-			buf = append(buf,
-				byte(offs>>24), byte(offs>>16), byte(offs>>8), byte(offs))
-			cov := set.ToTable()
-			offs += cov.EncodeLen()
+	for _, s := range layout.order {
+		if layout.offset[s] == 0 {
+			continue
 		}
-		for _, set := range table.MarkGlyphSets {
-			cov := set.ToTable()
-			buf = append(buf, cov.Encode()...)
+		switch s {
+		case glyphClassSection:
+			buf = table.GlyphClass.Append(buf)
+		case markAttachSection:
+			buf = table.MarkAttachClass.Append(buf)
+		case markGlyphSetsSection:
+			buf = table.appendMarkGlyphSets(buf)
 		}
 	}
 	return buf
 }
 
+func (table *Table) appendMarkGlyphSets(buf []byte) []byte {
+	markGlyphSetCount := len(table.MarkGlyphSets)
+	buf = append(buf,
+		0, 1, // format
+		byte(markGlyphSetCount>>8), byte(markGlyphSetCount))
+	offs := 4 + 4*markGlyphSetCount
+	for _, set := range table.MarkGlyphSets {
+		buf = append(buf,
+			byte(offs>>24), byte(offs>>16), byte(offs>>8), byte(offs))
+		cov := set.ToTable()
+		offs += cov.EncodeLen()
+	}
+	for _, set := range table.MarkGlyphSets {
+		cov := set.ToTable()
+		buf = append(buf, cov.Encode()...)
+	}
+	return buf
+}
+
 // Possible values for the GlyphClass field.
 // https://docs.microsoft.com/en-us/typography/opentype/spec/GDEF#glyph-class-definition-table
 const (
-- 
2.43.0


From 0d226fb2c5ba0269165fdf9b731003515fbec2e7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:24:46 +0000
Subject: [PATCH 46/57] fix: reject name strings which do not fit into the name
 table

---
 name/name.go | 30 +++++++++++++++++++++++++++---
 read.go      |  6 ++++++
 write.go     | 13 ++++++++-----
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/name/name.go b/name/name.go
index 385e848..9d7f282 100644
--- a/name/name.go
+++ b/name/name.go
@@ -150,6 +150,26 @@ recLoop:
 
 // Encode converts a "name" table into its binary form.
 func (info *Info) Encode(windowsEncodingID uint16) []byte {
+	data, _ := info.encode(windowsEncodingID)
+	return data
+}
+
+// CheckSize returns an error, if the strings are too long to be stored in a
+// "name" table.
+func (info *Info) CheckSize() error {
+	_, ok := info.encode(1)
+	if !ok {
+		return &parser.InvalidFontError{
+			SubSystem: "sfnt/name",
+			Reason:    "name strings too long",
+		}
+	}
+	return nil
+}
+
+// encode returns the binary form of the table.  The boolean indicates whether
+// all offsets and lengths fit into the space available.
+func (info *Info) encode(windowsEncodingID uint16) ([]byte, bool) {
 	type recInfo struct {
 		PlatformID uint16
 		EncodingID uint16
@@ -247,12 +267,13 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 	}
 	copy(res[startOfStrings:], b.data)
 
-	return res
+	return res, !b.overflow
 }
 
 type nameBuilder struct {
-	data []byte
-	idx  map[string]uint16
+	data     []byte
+	idx      map[string]uint16
+	overflow bool
 }
 
 func newNameBuilder() *nameBuilder {
@@ -266,6 +287,9 @@ func (nb *nameBuilder) Add(b []byte) (offs, length uint16) {
 	if idx, ok := nb.idx[key]; ok {
 		return idx, uint16(len(b))
 	}
+	if len(nb.data) > 0xFFFF || len(b) > 0xFFFF {
+		nb.overflow = true
+	}
 	idx := uint16(len(nb.data))
 	nb.idx[key] = idx
 	nb.data = append(nb.data, b...)
diff --git a/read.go b/read.go
index 6641a67..5fcdde4 100644
--- a/read.go
+++ b/read.go
@@ -523,6 +523,12 @@ func Read(r io.Reader) (*Font, error) {
 		}
 	}
 
+	// Make sure that the name strings can be written again.
+	err = info.makeName().CheckSize()
+	if err != nil {
+		return nil, err
+	}
+
 	return info, nil
 }
 
diff --git a/write.go b/write.go
index 291d901..258fa77 100644
--- a/write.go
+++ b/write.go
@@ -49,7 +49,12 @@ func (f *Font) Write(w io.Writer) (int64, error) {
 	}
 
 	tableData["OS/2"] = f.makeOS2()
-	tableData["name"] = f.makeName()
+	nameInfo := f.makeName()
+	err := nameInfo.CheckSize()
+	if err != nil {
+		return 0, err
+	}
+	tableData["name"] = nameInfo.Encode(1)
 	tableData["post"] = f.makePost()
 
 	var locaFormat int16
@@ -264,7 +269,7 @@ func (f *Font) makeOS2() []byte {
 	return os2Info.Encode()
 }
 
-func (f *Font) makeName() []byte {
+func (f *Font) makeName() *name.Info {
 	day := f.ModificationTime
 	if day.IsZero() {
 		day = f.CreationTime
@@ -289,7 +294,7 @@ func (f *Font) makeName() []byte {
 		PostScriptName: f.PostScriptName(),
 		SampleText:     f.SampleText,
 	}
-	nameInfo := &name.Info{
+	return &name.Info{
 		Mac: name.Tables{
 			"en": nameTable,
 		},
@@ -297,8 +302,6 @@ func (f *Font) makeName() []byte {
 			"en-US": nameTable,
 		},
 	}
-
-	return nameInfo.Encode(1)
 }
 
 func (f *Font) makePost() []byte {
-- 
2.43.0


From ca994f826ece8183edd369b1a450f53573865a57 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:24:46 +0000
Subject: [PATCH 47/57] fix: store repeated glyph names only once in the post
 table

---
 post/post.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/post/post.go b/post/post.go
index b042a68..fdf2b8a 100644
--- a/post/post.go
+++ b/post/post.go
@@ -143,15 +143,18 @@ func (info *Info) Encode() []byte {
 			mac[name] = i
 		}
 		var stringData []byte
-		numStrings := 0
+		index := make(map[string]int)
 
 		for _, name := range info.Names {
 			idx, ok := mac[name]
 			if !ok {
-				idx = len(macRoman) + numStrings
+				idx, ok = index[name]
+			}
+			if !ok {
+				idx = len(macRoman) + len(index)
+				index[name] = idx
 				stringData = append(stringData, byte(len(name)))
 				stringData = append(stringData, name...)
-				numStrings++
 			}
 			buf.Write([]byte{byte(idx >> 8), byte(idx)})
 		}
-- 
2.43.0


From b9bff39a393aa7613e858b6064c85a44f90cebcc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:27:06 +0000
Subject: [PATCH 48/57] fix: distribute large kern tables over several GPOS
 subtables

---
 read.go | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/read.go b/read.go
index 5fcdde4..7870b6f 100644
--- a/read.go
+++ b/read.go
@@ -23,8 +23,10 @@ import (
 	"io"
 	"math"
 	"os"
+	"slices"
 	"strings"
 
+	"golang.org/x/exp/maps"
 	"golang.org/x/text/language"
 
 	"seehuhn.de/go/postscript/funit"
@@ -33,6 +35,7 @@ import (
 	"seehuhn.de/go/sfnt/cff"
 	"seehuhn.de/go/sfnt/cmap"
 	"seehuhn.de/go/sfnt/glyf"
+	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/head"
 	"seehuhn.de/go/sfnt/header"
 	"seehuhn.de/go/sfnt/hmtx"
@@ -501,12 +504,6 @@ func Read(r io.Reader) (*Font, error) {
 			return nil, fmt.Errorf("kern table: %w", err)
 		}
 
-		subtable := gtab.Gpos2_1{}
-		for pair, val := range kern {
-			subtable[pair] = &gtab.PairAdjust{
-				First: &gtab.GposValueRecord{XAdvance: val},
-			}
-		}
 		info.Gpos = &gtab.Info{
 			ScriptList: map[language.Tag]*gtab.Features{
 				language.MustParse("und-Zzzz-x-dflt"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}},
@@ -517,7 +514,7 @@ func Read(r io.Reader) (*Font, error) {
 			LookupList: []*gtab.LookupTable{
 				{
 					Meta:      &gtab.LookupMetaInfo{LookupType: 2},
-					Subtables: []gtab.Subtable{subtable},
+					Subtables: kernSubtables(kern),
 				},
 			},
 		}
@@ -532,6 +529,37 @@ func Read(r io.Reader) (*Font, error) {
 	return info, nil
 }
 
+// kernSubtables converts kerning information to pair adjustment subtables.
+// More than one subtable is used, if the pairs for different first glyphs do
+// not fit into a single subtable.
+func kernSubtables(kern kern.Info) []gtab.Subtable {
+	byLeft := make(map[glyph.ID][]glyph.Pair)
+	for pair := range kern {
+		byLeft[pair.Left] = append(byLeft[pair.Left], pair)
+	}
+	lefts := maps.Keys(byLeft)
+	slices.Sort(lefts)
+
+	var res []gtab.Subtable
+	cur := gtab.Gpos2_1{}
+	offset := 14 // upper bound for the offset of the next pair set
+	for _, left := range lefts {
+		offset += 4 // pair set offset, coverage
+		if offset > 0xFFFF {
+			res = append(res, cur)
+			cur = gtab.Gpos2_1{}
+			offset = 14 + 4
+		}
+		for _, pair := range byLeft[left] {
+			cur[pair] = &gtab.PairAdjust{
+				First: &gtab.GposValueRecord{XAdvance: kern[pair]},
+			}
+		}
+		offset += 2 + 4*len(byLeft[left])
+	}
+	return append(res, cur)
+}
+
 func getNameTableVersion(t *name.Table) (head.Version, bool) {
 	if t == nil {
 		return 0, false
-- 
2.43.0


From d67f28df2ebb566b951600c141559ab3c5f01bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:42 +0000
Subject: [PATCH 49/57] fix: keep the glyph names of TrueType fonts with an
 incomplete list of names

---
 names.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/names.go b/names.go
index 80946ee..2d53429 100644
--- a/names.go
+++ b/names.go
@@ -64,9 +64,7 @@ func (f *Font) MakeGlyphNames() []string {
 			glyphNames[gid] = g.Name
 		}
 	case *glyf.Outlines:
-		if len(f.Names) == len(f.Glyphs) {
-			copy(glyphNames, f.Names)
-		}
+		copy(glyphNames, f.Names)
 	default:
 		panic("unexpected font type")
 	}
-- 
2.43.0


From 9b4030379e7c91730e36334d9e665276c34141d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:44 +0000
Subject: [PATCH 50/57] fix: glyph names for fonts with unusual character maps

---
 names.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/names.go b/names.go
index 2d53429..ef1a150 100644
--- a/names.go
+++ b/names.go
@@ -19,6 +19,7 @@ package sfnt
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	"seehuhn.de/go/postscript/type1/names"
 
@@ -92,9 +93,10 @@ func (f *Font) MakeGlyphNames() []string {
 
 	if cmap, _ := f.CMapTable.GetBest(); cmap != nil {
 		a, b := cmap.CodeRange()
+		a, b = max(a, 0), min(b, unicode.MaxRune)
 		for r := a; r <= b; r++ {
 			gid := cmap.Lookup(r)
-			if glyphNames[gid] != "" {
+			if int(gid) >= len(glyphNames) || glyphNames[gid] != "" {
 				// This includes the case of unmapped runes (gid == 0).
 				continue
 			}
-- 
2.43.0


From 18fc06aa0b4125b9826fb022137b760d47c2263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:46 +0000
Subject: [PATCH 51/57] fix: do not replace existing glyph names by ligature
 names, and infer the same names on every call

---
 names.go | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/names.go b/names.go
index ef1a150..5d8fde6 100644
--- a/names.go
+++ b/names.go
@@ -25,6 +25,7 @@ import (
 
 	"seehuhn.de/go/sfnt/cff"
 	"seehuhn.de/go/sfnt/glyf"
+	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/opentype/gtab"
 )
 
@@ -109,53 +110,63 @@ func (f *Font) MakeGlyphNames() []string {
 	}
 
 	if f.Gsub != nil {
+		// isNamed returns true, if gid exists and has a name
+		isNamed := func(gid glyph.ID) bool {
+			return int(gid) < len(glyphNames) && glyphNames[gid] != ""
+		}
+		// isMissing returns true, if gid exists and does not have a name
+		isMissing := func(gid glyph.ID) bool {
+			return int(gid) < len(glyphNames) && glyphNames[gid] == ""
+		}
+
 		for _, lookup := range f.Gsub.LookupList {
 			for _, subtable := range lookup.Subtables {
 				switch subtable := subtable.(type) {
 				case *gtab.Gsub1_1:
-					for origGid := range subtable.Cov {
+					for _, origGid := range subtable.Cov.Glyphs() {
 						newGid := origGid + subtable.Delta
-						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
+						if !isNamed(origGid) || !isMissing(newGid) {
 							continue
 						}
 						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
 					}
 				case *gtab.Gsub1_2:
-					for origGid, idx := range subtable.Cov {
-						newGid := subtable.SubstituteGlyphIDs[idx]
-						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
+					for _, origGid := range subtable.Cov.Glyphs() {
+						newGid := subtable.SubstituteGlyphIDs[subtable.Cov[origGid]]
+						if !isNamed(origGid) || !isMissing(newGid) {
 							continue
 						}
 						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
 					}
 				case *gtab.Gsub3_1:
-					for origGid, idx := range subtable.Cov {
-						if glyphNames[origGid] == "" {
+					for _, origGid := range subtable.Cov.Glyphs() {
+						if !isNamed(origGid) {
 							continue
 						}
-						for _, newGid := range subtable.Alternates[idx] {
-							if glyphNames[newGid] == "" {
+						for _, newGid := range subtable.Alternates[subtable.Cov[origGid]] {
+							if isMissing(newGid) {
 								glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
 							}
 						}
 					}
 				case *gtab.Gsub4_1:
 					var nn []string
-					for origGid, idx := range subtable.Cov {
-						name := glyphNames[origGid]
-						if name == "" {
+					for _, origGid := range subtable.Cov.Glyphs() {
+						if !isNamed(origGid) {
 							continue
 						}
-						nn = append(nn[:0], name)
+						nn = append(nn[:0], glyphNames[origGid])
 					replLoop:
-						for _, lig := range subtable.Repl[idx] {
+						for _, lig := range subtable.Repl[subtable.Cov[origGid]] {
+							if !isMissing(lig.Out) {
+								continue
+							}
 							nn = nn[:1]
 							for _, gid := range lig.In {
-								if name := glyphNames[gid]; name != "" {
-									nn = append(nn, name)
-								} else {
+								if !isNamed(gid) {
 									continue replLoop
 								}
+								nn = append(nn, glyphNames[gid])
 							}
 							newName := strings.Join(nn, "_")
 							glyphNames[lig.Out] = makeVariant(used, newName)
-- 
2.43.0


From 2944918197ab06a4ff4689497dbe7a90b3f1cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:47 +0000
Subject: [PATCH 52/57] fix: limit the length of inferred glyph names

---
 names.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/names.go b/names.go
index 5d8fde6..20767fa 100644
--- a/names.go
+++ b/names.go
@@ -195,6 +195,11 @@ func (f *Font) MakeGlyphNames() []string {
 	return glyphNames
 }
 
+// maxNameLength is the maximal length of generated glyph names.
+const maxNameLength = 63
+
+// makeVariant returns an unused name derived from basename.  If there is no
+// such name of acceptable length, the empty string is returned.
 func makeVariant(used map[string]bool, basename string) string {
 	try := 0
 	name := basename
@@ -202,6 +207,9 @@ func makeVariant(used map[string]bool, basename string) string {
 		try++
 		name = fmt.Sprintf("%s.%d", basename, try)
 	}
+	if len(name) > maxNameLength {
+		return ""
+	}
 	used[name] = true
 	return name
 }
-- 
2.43.0


From 208e617ce71b1938c73277fad85ca5ecc00a1fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:49 +0000
Subject: [PATCH 53/57] fix: allow for glyph objects which are used more than
 once when installing glyph names

---
 cff/convert.go | 5 +++++
 names.go       | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cff/convert.go b/cff/convert.go
index a6fc1b5..f429e10 100644
--- a/cff/convert.go
+++ b/cff/convert.go
@@ -43,6 +43,11 @@ func (o *Outlines) MakeSimple(glyphText map[glyph.ID]string) {
 // If glyphText is not nil, it is used to generate names for glyphs that do not
 // have a name yet.
 func (o *Outlines) makeNames(glyphText map[glyph.ID]string) {
+	// glyph objects may be shared between glyph IDs or between fonts
+	for i, g := range o.Glyphs {
+		o.Glyphs[i] = clone(g)
+	}
+
 	o.Glyphs[0].Name = ".notdef"
 
 	// keep existing names, unless they are invalid or duplicate
diff --git a/names.go b/names.go
index 20767fa..087eba1 100644
--- a/names.go
+++ b/names.go
@@ -39,10 +39,13 @@ func (f *Font) EnsureGlyphNames() {
 	switch f := f.Outlines.(type) {
 	case *cff.Outlines:
 		for gid, g := range f.Glyphs {
-			if g == nil {
+			if g == nil || g.Name == glyphNames[gid] {
 				continue
 			}
-			g.Name = glyphNames[gid]
+			// the glyph may be shared with other glyph IDs or other fonts
+			g2 := *g
+			g2.Name = glyphNames[gid]
+			f.Glyphs[gid] = &g2
 		}
 	case *glyf.Outlines:
 		f.Names = glyphNames
-- 
2.43.0


From 62dcab57565f8dd358121f827f8dcc811ebde05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:37 +0000
Subject: [PATCH 54/57] fix: characters outside the BMP are not covered by
 16-bit cmap subtables

---
 cmap/format0.go | 2 +-
 cmap/format4.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmap/format0.go b/cmap/format0.go
index 765f596..42fe5d4 100644
--- a/cmap/format0.go
+++ b/cmap/format0.go
@@ -48,7 +48,7 @@ type Format0 struct {
 // Lookup returns the glyph index for the given rune.
 // If the rune is not found, Lookup returns 0 (corresponding to the ".notdef" glyph).
 func (cmap *Format0) Lookup(r rune) glyph.ID {
-	if r > 255 {
+	if r < 0 || r > 255 {
 		return 0
 	}
 	return glyph.ID(cmap.Data[r])
diff --git a/cmap/format4.go b/cmap/format4.go
index 21d841a..12bb5ec 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -96,6 +96,9 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 
 // Lookup implements the Subtable interface.
 func (cmap Format4) Lookup(r rune) glyph.ID {
+	if r < 0 || r > 0xFFFF {
+		return 0
+	}
 	return cmap[uint16(r)]
 }
 
-- 
2.43.0


From 2226e9bcd61c419ed6acd3dd7057d6e97bfa1fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:41 +0000
Subject: [PATCH 55/57] fix: convert Mac Roman codes in format 0 cmap subtables
 to unicode

---
 cmap/format0.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/cmap/format0.go b/cmap/format0.go
index 42fe5d4..2f6bb49 100644
--- a/cmap/format0.go
+++ b/cmap/format0.go
@@ -26,15 +26,29 @@ import (
 //
 // https://docs.microsoft.com/en-us/typography/opentype/spec/cmap#format-0-byte-encoding-table
 func decodeFormat0(data []byte, code2rune func(c int) rune) (Subtable, error) {
-	if code2rune == nil {
-		code2rune = unicode
-	}
-
 	data = data[6:]
 	if len(data) != 256 {
 		return nil, fmt.Errorf("cmap: format 0: expected 256 bytes, got %d", len(data))
 	}
 
+	if code2rune != nil {
+		res := make(Format4)
+		isIdentity := true
+		for code, gid := range data {
+			if gid == 0 {
+				continue
+			}
+			r := code2rune(code)
+			res[uint16(r)] = glyph.ID(gid)
+			if r != rune(code) {
+				isIdentity = false
+			}
+		}
+		if !isIdentity {
+			return res, nil
+		}
+	}
+
 	res := &Format0{}
 	copy(res.Data[:], data)
 
-- 
2.43.0


From bc624c92f3c7089f448c0e42052226898698e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:45 +0000
Subject: [PATCH 56/57] fix: allow for more than 10920 kerning pairs in a kern
 subtable

---
 kern/kern.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/kern/kern.go b/kern/kern.go
index 6e71c35..4e06b65 100644
--- a/kern/kern.go
+++ b/kern/kern.go
@@ -74,13 +74,26 @@ func Read(r parser.ReadSeekSizer) (Info, error) {
 		format := buf[4]
 		flags := buf[5]
 
-		if length < 6+8 {
+		subtableLength := int64(length)
+		var nPairs uint16
+		if subtableVersion == 0 && format == 0 {
+			nPairs, err = p.ReadUint16()
+			if err != nil {
+				return nil, err
+			}
+			// For subtables with more than 10920 pairs, the length field
+			// overflows.
+			if l := 14 + 6*int64(nPairs); l > 0xFFFF && uint16(l) == length {
+				subtableLength = l
+			}
+		}
+		if subtableLength < 6+8 {
 			return nil, &parser.InvalidFontError{
 				SubSystem: "sfnt/kern",
 				Reason:    fmt.Sprintf("invalid kern subtable length %d", length),
 			}
 		}
-		pos += int64(length)
+		pos += subtableLength
 
 		if subtableVersion != 0 || format != 0 || flags&0b11110101 != 1 {
 			continue
@@ -88,10 +101,6 @@ func Read(r parser.ReadSeekSizer) (Info, error) {
 		isMinimum := flags&0b00000010 != 0
 		isOverride := flags&0b00001000 != 0
 
-		nPairs, err := p.ReadUint16()
-		if err != nil {
-			return nil, err
-		}
 		totalPairs += int64(nPairs)
 		if 6*totalPairs > p.Size() {
 			// Either the data is missing, or the subtables overlap.
-- 
2.43.0


From dc027e660ac0d7f5aabc784aa7b77b57587f1cdf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:49:55 +0000
Subject: [PATCH 57/57] fix: compute the size of coverage sets without sorting

---
 opentype/coverage/set.go   | 12 ++++++++++++
 opentype/gdef/gdef.go      |  2 +-
 opentype/gtab/gpos.go      |  4 ++--
 opentype/gtab/gsub.go      |  2 +-
 opentype/gtab/maxoffset.go |  8 ++++----
 opentype/gtab/nested.go    | 22 ++++++++--------------
 6 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/opentype/coverage/set.go b/opentype/coverage/set.go
index d427092..f047dc4 100644
--- a/opentype/coverage/set.go
+++ b/opentype/coverage/set.go
@@ -45,6 +45,18 @@ func (set Set) ToTable() Table {
 	return table
 }
 
+// EncodeLen returns the number of bytes in the binary representation of the
+// corresponding coverage table.
+func (set Set) EncodeLen() int {
+	rangeCount := 0
+	for gid := range set {
+		if _, ok := set[gid-1]; gid == 0 || !ok {
+			rangeCount++
+		}
+	}
+	return 4 + min(2*len(set), 6*rangeCount)
+}
+
 // ReadSet reads a coverage table from a parser.
 // This function allows for some duplicate glyphs to be included.  This is
 // forbidden by the spec, but occurs in some widely used fonts.
diff --git a/opentype/gdef/gdef.go b/opentype/gdef/gdef.go
index db007c2..53823d1 100644
--- a/opentype/gdef/gdef.go
+++ b/opentype/gdef/gdef.go
@@ -179,7 +179,7 @@ func (table *Table) layout() (*tableLayout, bool) {
 		headerLen = 14
 		k := 4 + 4*len(table.MarkGlyphSets)
 		for _, set := range table.MarkGlyphSets {
-			k += set.ToTable().EncodeLen()
+			k += set.EncodeLen()
 		}
 		length[markGlyphSetsSection] = k
 	}
diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index 63ce9df..dd3729f 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -593,7 +593,7 @@ func (l *Gpos2_2) encodeLen() int {
 
 	total := 16
 	total += class1Count * class2Count * recLen
-	total += l.Cov.ToTable().EncodeLen()
+	total += l.Cov.EncodeLen()
 	total += l.Class1.AppendLen()
 	total += l.Class2.AppendLen()
 	return total
@@ -620,7 +620,7 @@ func (l *Gpos2_2) encode() []byte {
 	total := 16
 	total += class1Count * class2Count * recLen
 	coverageOffset := total
-	total += l.Cov.ToTable().EncodeLen()
+	total += l.Cov.EncodeLen()
 	classDef1Offset := total
 	total += l.Class1.AppendLen()
 	classDef2Offset := total
diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 508d600..0833dac 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -116,7 +116,7 @@ func (l *Gsub1_1) apply(ctx *Context, a, b int) int {
 
 // encodeLen implements the [Subtable] interface.
 func (l *Gsub1_1) encodeLen() int {
-	return 6 + l.Cov.ToTable().EncodeLen()
+	return 6 + l.Cov.EncodeLen()
 }
 
 // encode implements the [Subtable] interface.
diff --git a/opentype/gtab/maxoffset.go b/opentype/gtab/maxoffset.go
index 57a48ae..079c3b0 100644
--- a/opentype/gtab/maxoffset.go
+++ b/opentype/gtab/maxoffset.go
@@ -105,7 +105,7 @@ func (l *SeqContext1) maxOffset() int { return l.encodeLen() - l.Cov.EncodeLen()
 func (l *SeqContext3) maxOffset() int {
 	total := l.encodeLen()
 	if k := len(l.Input); k > 0 {
-		total -= l.Input[k-1].ToTable().EncodeLen()
+		total -= l.Input[k-1].EncodeLen()
 	}
 	return total
 }
@@ -113,11 +113,11 @@ func (l *SeqContext3) maxOffset() int {
 func (l *ChainedSeqContext3) maxOffset() int {
 	total := l.encodeLen()
 	if k := len(l.Lookahead); k > 0 {
-		total -= l.Lookahead[k-1].ToTable().EncodeLen()
+		total -= l.Lookahead[k-1].EncodeLen()
 	} else if k := len(l.Input); k > 0 {
-		total -= l.Input[k-1].ToTable().EncodeLen()
+		total -= l.Input[k-1].EncodeLen()
 	} else if k := len(l.Backtrack); k > 0 {
-		total -= l.Backtrack[k-1].ToTable().EncodeLen()
+		total -= l.Backtrack[k-1].EncodeLen()
 	}
 	return total
 }
diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 04ee607..f3ceeb1 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -615,7 +615,7 @@ func (l *SeqContext3) apply(ctx *Context, a, b int) int {
 func (l *SeqContext3) encodeLen() int {
 	total := 6 + 2*len(l.Input) + 4*len(l.Actions)
 	for _, cov := range l.Input {
-		total += cov.ToTable().EncodeLen()
+		total += cov.EncodeLen()
 	}
 	return total
 }
@@ -629,7 +629,7 @@ func (l *SeqContext3) encode() []byte {
 	coverageOffsets := make([]uint16, glyphCount)
 	for i, cov := range l.Input {
 		coverageOffsets[i] = uint16(total)
-		total += cov.ToTable().EncodeLen()
+		total += cov.EncodeLen()
 	}
 
 	buf := make([]byte, 0, total)
@@ -1473,16 +1473,13 @@ func (l *ChainedSeqContext3) encodeLen() int {
 	total += 2 * len(l.Lookahead)
 	total += 4 * len(l.Actions)
 	for _, set := range l.Backtrack {
-		cov := set.ToTable()
-		total += cov.EncodeLen()
+		total += set.EncodeLen()
 	}
 	for _, set := range l.Input {
-		cov := set.ToTable()
-		total += cov.EncodeLen()
+		total += set.EncodeLen()
 	}
 	for _, set := range l.Lookahead {
-		cov := set.ToTable()
-		total += cov.EncodeLen()
+		total += set.EncodeLen()
 	}
 	return total
 }
@@ -1502,20 +1499,17 @@ func (l *ChainedSeqContext3) encode() []byte {
 	backtrackCoverageOffsets := make([]uint16, backtrackGlyphCount)
 	for i, set := range l.Backtrack {
 		backtrackCoverageOffsets[i] = uint16(total)
-		cov := set.ToTable()
-		total += cov.EncodeLen()
+		total += set.EncodeLen()
 	}
 	inputCoverageOffsets := make([]uint16, inputGlyphCount)
 	for i, set := range l.Input {
 		inputCoverageOffsets[i] = uint16(total)
-		cov := set.ToTable()
-		total += cov.EncodeLen()
+		total += set.EncodeLen()
 	}
 	lookaheadCoverageOffsets := make([]uint16, lookaheadGlyphCount)
 	for i, set := range l.Lookahead {
 		lookaheadCoverageOffsets[i] = uint16(total)
-		cov := set.ToTable()
-		total += cov.EncodeLen()
+		total += set.EncodeLen()
 	}
 
 	buf := make([]byte, 0, total)
-- 
2.43.0

