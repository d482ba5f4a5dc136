id="c19-int16-wrap"; prop="C19"
needs="a text with a position value between 32768 and 65535"
breaks="an out-of-range position value is accepted and silently turned into a negative number instead of an error"
edits=[("opentype/gtab/builder/parser.go","""	if x < -32768 || x > 32767 {
""","""	if x < -32768 || x > 65535 {
""")]
dir="opentype/gtab/builder"
demo='''package builder
import ("testing";"seehuhn.de/go/sfnt";"seehuhn.de/go/sfnt/cff")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{".notdef", "A", "B"} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &sfnt.Font{Outlines: o}
	if _, err := Parse(f, "GPOS1: A -> x+32767 y-32768\\n"); err != nil { t.Fatal(err) }
	for _, x := range []string{"+32768", "+40000", "+65535", "+65536", "-32769"} {
		if _, err := Parse(f, "GPOS1: A -> x"+x+"\\n"); err == nil { t.Fatal(x) }
	}
}
'''
