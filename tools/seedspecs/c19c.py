id="c19-range-gap"; prop="C19"
needs="a single substitution which maps three or more consecutive glyphs to increasing but not consecutive glyphs"
breaks="the description abbreviates these as a range of another length, so it is rejected"
edits=[("opentype/gtab/builder/explain.go","""				if from != mm[i-1].from[0]+1 || to != from+delta {
""","""				if from != mm[i-1].from[0]+1 || to-from < delta {
""")]
dir="opentype/gtab/builder"
demo='''package builder
import ("testing";"reflect";"seehuhn.de/go/sfnt";"seehuhn.de/go/sfnt/cff";"seehuhn.de/go/sfnt/opentype/gtab")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{".notdef", "A", "B", "C", "D", "E", "F", "G"} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &sfnt.Font{Outlines: o}
	ll, err := Parse(f, "GSUB1: A -> B, B -> D, C -> G\\n")
	if err != nil { t.Fatal(err) }
	f.Gsub = &gtab.Info{LookupList: ll}
	l2, err := Parse(f, ExplainGsub(f))
	if err != nil || !reflect.DeepEqual(ll, l2) { t.Fatal(err, ExplainGsub(f)) }
}
'''
