id="c15-mark-early"; prop="C15"
needs="a substitution which turns a mark into a non-mark glyph (or the other way round), so that the class of the glyph differs before and after GSUB"
breaks="marks are recognised before GSUB is applied, so that the substituted glyph gets no advance width"
edits=[("layout.go","""		if !font.Gdef.IsMark(gid) {
""","""		if len(seq[i].Text) == 1 && font.Gdef.IsMark(l.cmap.Lookup(seq[i].Text[0])) {
			continue // combining characters do not advance
		}
		if !font.Gdef.IsMark(gid) {
""")]
dir="."
demo='''package sfnt
import ("testing";"golang.org/x/text/language";"seehuhn.de/go/sfnt/cff";"seehuhn.de/go/sfnt/cmap";"seehuhn.de/go/sfnt/opentype/gdef";"seehuhn.de/go/sfnt/opentype/classdef";"seehuhn.de/go/sfnt/opentype/gtab";"seehuhn.de/go/sfnt/opentype/coverage")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{".notdef", "acute", "acutecomb"} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &Font{Outlines: o, Gdef: &gdef.Table{GlyphClass: classdef.Table{2: gdef.GlyphClassMark}},
		Gsub: &gtab.Info{ScriptList: map[language.Tag]*gtab.Features{language.MustParse("und-Zzzz"): {Required: 0}}, FeatureList: gtab.FeatureListInfo{{Tag: "ccmp", Lookups: []gtab.LookupIndex{0}}}, LookupList: gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: 1}, Subtables: []gtab.Subtable{&gtab.Gsub1_1{Cov: coverage.Set{2: true}, Delta: 0xFFFF}}}}}}
	f.InstallCMap(cmap.Format4{0xB4: 1, 0x301: 2})
	l, err := f.NewLayouter(language.Und, nil, nil)
	if err != nil { t.Fatal(err) }
	if g := l.Layout("\\u0301"); g[0].GID != 1 || g[0].Advance != 500 { t.Fatal(g) }
}
'''
