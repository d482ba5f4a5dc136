id="c07-layout-buf"; prop="C07"
needs="two calls of Layout on one layouter; the first one positions a glyph (offset or mark), the second one uses the same place in the buffer without positioning it"
breaks="Layout re-uses the glyph records of the previous call without clearing the positions"
edits=[("layout.go","""		seq = append(seq, glyph.Info{
			GID:  gid,
			Text: []rune{r},
		})
""","""		if n := len(seq); n < cap(seq) {
			// re-use the record from the previous call
			seq = seq[:n+1]
			seq[n].GID = gid
			seq[n].Text = []rune{r}
			continue
		}
		seq = append(seq, glyph.Info{
			GID:  gid,
			Text: []rune{r},
		})
""")]
dir="."
demo='''package sfnt
import ("testing";"seehuhn.de/go/sfnt/cmap";"seehuhn.de/go/sfnt/glyf";"seehuhn.de/go/sfnt/opentype/gtab";"seehuhn.de/go/sfnt/opentype/coverage";"seehuhn.de/go/postscript/funit";"golang.org/x/text/language")
func TestDemo(t *testing.T) {
	f := &Font{UnitsPerEm: 1000, Outlines: &glyf.Outlines{Glyphs: make(glyf.Glyphs, 3), Widths: []funit.Int16{500, 500, 500}}}
	f.InstallCMap(cmap.Format4{'A': 1, 'B': 2})
	f.Gpos = &gtab.Info{ScriptList: gtab.ScriptListInfo{language.MustParse("und-Zzzz"): {Required: 0}},
		FeatureList: gtab.FeatureListInfo{{Tag: "kern", Lookups: []gtab.LookupIndex{0}}},
		LookupList: gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: 1}, Subtables: []gtab.Subtable{
			&gtab.Gpos1_1{Cov: coverage.Table{1: 0}, Adjust: &gtab.GposValueRecord{XPlacement: 7}}}}}}
	l, err := f.NewLayouter(language.English, nil, nil)
	if err != nil { t.Fatal(err) }
	if x := l.Layout("A"); x[0].XOffset != 7 { t.Fatal(x) }
	if x := l.Layout("B"); x[0].XOffset != 0 { t.Fatal(x) }
}
'''
