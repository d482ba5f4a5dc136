id="c15-empty-switches"; prop="C15"
needs="a Layouter created with an empty, non-nil set of GPOS features for a font with kerning"
breaks="the empty set is taken for the default set, so that kerning is applied although all features are switched off"
edits=[("layout.go","		if gposFeatures == nil {","		if len(gposFeatures) == 0 {")]
dir="."
demo='''package sfnt
import ("testing";"golang.org/x/text/language";"seehuhn.de/go/sfnt/cff";"seehuhn.de/go/sfnt/cmap";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/gtab";"seehuhn.de/go/sfnt/opentype/coverage")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{".notdef", "A"} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &Font{Outlines: o, Gpos: &gtab.Info{ScriptList: map[language.Tag]*gtab.Features{language.MustParse("und-Zzzz"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}}, FeatureList: gtab.FeatureListInfo{{Tag: "kern", Lookups: []gtab.LookupIndex{0}}}, LookupList: gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: 1}, Subtables: []gtab.Subtable{&gtab.Gpos1_1{Cov: coverage.Table{1: 0}, Adjust: &gtab.GposValueRecord{XAdvance: 50}}}}}}}
	_ = glyph.ID(0)
	f.InstallCMap(cmap.Format4{'A': 1})
	l, err := f.NewLayouter(language.Und, nil, map[string]bool{})
	if err != nil { t.Fatal(err) }
	if g := l.Layout("A"); g[0].Advance != 500 { t.Fatal(g) }
}
'''
