id="c19-flag-combination"; prop="C19"
needs="a lookup which ignores base glyphs and also marks or ligatures"
breaks="the -base flag replaces the flags given before it"
edits=[("opentype/gtab/builder/parser.go","""			flags |= gtab.IgnoreBaseGlyphs
""","""			flags = flags&gtab.RightToLeft | gtab.IgnoreBaseGlyphs
""")]
dir="opentype/gtab/builder"
demo='''package builder
import ("testing";"seehuhn.de/go/sfnt";"seehuhn.de/go/sfnt/cff";"seehuhn.de/go/sfnt/opentype/gtab")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{".notdef", "A", "B", "C"} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &sfnt.Font{Outlines: o}
	ll, err := Parse(f, "GSUB1: -marks -base A -> B\\n")
	if err != nil { t.Fatal(err) }
	if fl := ll[0].Meta.LookupFlags; fl != gtab.IgnoreMarks|gtab.IgnoreBaseGlyphs { t.Fatal(fl) }
}
'''
