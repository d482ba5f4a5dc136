id="c01-loca-boundary"; prop="C01"
needs="a TrueType font whose glyf table is exactly 131072 bytes long (or, for the last offset of a glyph, 0x20000)"
breaks="the short loca format is used for an offset of 0x20000, whose half does not fit into 16 bits: the last glyph is lost or the file cannot be read"
edits=[("glyf/loca.go","""	if offs[len(offs)-1] <= 0xffff {
""","""	if offs[len(offs)-1]/2 <= 0x1_0000 {
""")]
dir="glyf"
demo='''package glyf
import "testing"
func TestDemo(t *testing.T) {
	offs := []int{0, 0x10000, 0x20000}
	data, format := encodeLoca(offs)
	got, err := decodeLoca(&Encoded{GlyfData: make([]byte, 0x20000), LocaData: data, LocaFormat: format})
	if err != nil { t.Fatal(err) }
	for i, x := range offs { if got[i] != x { t.Fatal(got) } }
}
'''
