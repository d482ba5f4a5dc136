id="c20-cmap-last"; prop="C20"
needs="an unnamed glyph which is only reachable from the last code point of the character map"
breaks="the glyph gets a placeholder name instead of the Adobe glyph list name"
edits=[("names.go","		for r := a; r <= b; r++ {","		for r := a; r < b; r++ {")]
dir="."
demo='''package sfnt
import ("testing";"seehuhn.de/go/sfnt/cff";"seehuhn.de/go/sfnt/cmap")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{".notdef", "", ""} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &Font{Outlines: o}
	f.InstallCMap(cmap.Format4{'A': 1, 'B': 2})
	nn := f.MakeGlyphNames()
	if nn[1] != "A" || nn[2] != "B" { t.Fatal(nn) }
}
'''
