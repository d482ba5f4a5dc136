id="c16-explain-sort"; prop="C16"
needs="a GSUB 3 lookup whose alternates are not in increasing order, explained while (or before) the font is used elsewhere"
breaks="ExplainGsub sorts the list of alternates of the shared font in place"
edits=[("opentype/gtab/builder/explain.go","""					ee.writeGlyph(gid)
					ee.w.WriteString(" -> ")
					ee.writeGlyphSet(l.Alternates[i])
""","""					ee.writeGlyph(gid)
					ee.w.WriteString(" -> ")
					alts := l.Alternates[i]
					if len(alts) > 3 {
						// long lists are easier to read when sorted
						sort.Slice(alts, func(i, j int) bool { return alts[i] < alts[j] })
					}
					ee.writeGlyphSet(alts)
""")]
dir="opentype/gtab/builder"
demo='''package builder
import ("testing";"seehuhn.de/go/sfnt/internal/debug";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage";"seehuhn.de/go/sfnt/opentype/gtab")
func TestDemo(t *testing.T) {
	f := debug.MakeSimpleFont()
	alts := []glyph.ID{7, 5, 6, 4}
	f.Gsub = &gtab.Info{LookupList: gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: 3}, Subtables: []gtab.Subtable{
		&gtab.Gsub3_1{Cov: coverage.Table{3: 0}, Alternates: [][]glyph.ID{alts}}}}}}
	ExplainGsub(f)
	if alts[0] != 7 || alts[1] != 5 { t.Fatal(alts) }
}
'''
