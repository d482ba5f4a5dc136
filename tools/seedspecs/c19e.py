id="c19-second-zero"; prop="C19"
needs="a class pair adjustment with a second value record in the last class of a row and none in the others"
breaks="explaining a pair adjustment drops the second value record when it only moves the glyph horizontally, without changing its advance"
edits=[("opentype/gtab/builder/explain.go","""	if pair.Second != nil {
""","""	if s := pair.Second; s != nil && (s.YPlacement != 0 || s.XAdvance != 0) {
""")]
dir="opentype/gtab/builder"
demo='''package builder
import ("testing";"reflect";"seehuhn.de/go/sfnt";"seehuhn.de/go/sfnt/cff";"seehuhn.de/go/sfnt/opentype/gtab")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{".notdef", "A", "B"} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &sfnt.Font{Outlines: o}
	ll, err := Parse(f, "GPOS2: A B -> dx+5 & x-7\\n")
	if err != nil { t.Fatal(err) }
	f.Gpos = &gtab.Info{LookupList: ll}
	l2, err := Parse(f, ExplainGpos(f)[0])
	if err != nil || !reflect.DeepEqual(ll, l2) { t.Fatal(err, ExplainGpos(f)) }
}
'''
needs="a pair adjustment whose second value record only moves the glyph horizontally, without changing its advance"
