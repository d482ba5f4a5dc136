id="c20-variant-used"; prop="C20"
needs="an unnamed ligature whose derived name coincides with a name needed later: the plain derived name is free, so that it is taken without being recorded, and a second unnamed glyph derives the same name"
breaks="two glyphs get the same ligature name"
edits=[("names.go","""	try := 0
	name := basename
	for used[name] {
		try++
		name = fmt.Sprintf("%s.%d", basename, try)
	}
""","""	name := basename
	if !used[name] && len(name) <= maxNameLength {
		return name
	}
	try := 0
	for used[name] {
		try++
		name = fmt.Sprintf("%s.%d", basename, try)
	}
""")]
dir="."
demo='''package sfnt
import ("testing";"seehuhn.de/go/sfnt/cff";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage";"seehuhn.de/go/sfnt/opentype/gtab")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{".notdef", "f", "i", "", ""} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &Font{Outlines: o, Gsub: &gtab.Info{LookupList: gtab.LookupList{}}}
	for _, out := range []glyph.ID{3, 4} {
		f.Gsub.LookupList = append(f.Gsub.LookupList, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 4}, Subtables: []gtab.Subtable{&gtab.Gsub4_1{Cov: coverage.Table{1: 0}, Repl: [][]gtab.Ligature{{{In: []glyph.ID{2}, Out: out}}}}}})
	}
	nn := f.MakeGlyphNames()
	if nn[3] == nn[4] { t.Fatal(nn) }
}
'''
