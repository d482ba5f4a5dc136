id="c20-notdef-kept"; prop="C20"
needs="a font whose glyph 0 carries a name other than .notdef"
breaks="glyph 0 is not called .notdef"
edits=[("names.go","""	glyphNames[0] = ".notdef"
""","""	if len(glyphNames) > 0 && glyphNames[0] == "" {
		glyphNames[0] = ".notdef"
	}
""")]
dir="."
demo='''package sfnt
import ("testing";"seehuhn.de/go/sfnt/cff")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{"null", "A"} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &Font{Outlines: o}
	if nn := f.MakeGlyphNames(); nn[0] != ".notdef" { t.Fatal(nn) }
}
'''
