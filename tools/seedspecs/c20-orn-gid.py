id="c20-orn-gid"; prop="C20"
needs="a CID-keyed font in which some glyphs already have placeholder names (ornNNN), left over from an earlier conversion, while other glyphs have none"
breaks="the numbered placeholders do not avoid the existing names, so that two glyphs share a name"
edits=[("cff/convert.go","""	for _, g := range o.Glyphs {
		if g.Name != "" {
			continue
		}

		for {
""","""	for gid, g := range o.Glyphs {
		if g.Name != "" {
			continue
		}

		if ornIdx == 1 {
			// numbers below the first unnamed glyph are not needed
			ornIdx = gid
		}
		if g.Width == 0 && glyphText == nil {
			g.Name = fmt.Sprintf("orn%03d", ornIdx)
			ornIdx++
			continue
		}

		for {
""")]
dir="cff"
demo='''package cff
import "testing"
func TestDemo(t *testing.T) {
	o := &Outlines{}
	for _, n := range []string{".notdef", "orn002", ""} { o.Glyphs = append(o.Glyphs, NewGlyph(n, 0)) }
	o.MakeSimple(nil)
	if o.Glyphs[1].Name == o.Glyphs[2].Name { t.Fatal(o.Glyphs[1].Name) }
}
'''
