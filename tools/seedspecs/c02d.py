id="c02-flag-repeat"; prop="C02"
needs="a simple glyph whose last flag byte repeats past the number of points (two checks were relaxed, each harmless alone)"
breaks="SimpleGlyph.Decode panics on a glyph which glyf.Decode accepted"
edits=[("glyf/simple.go","""			for count > 0 && i < numPoints {
				ff[i] = flags""","""			for count > 0 {
				ff[i] = flags"""),
("glyf/simple.go","""	if i != numPoints || pos > len(buf) {""","""	if pos > len(buf) {""")]
dir="glyf"
demo='''package glyf
import "testing"
func TestDemo(t *testing.T) {
	g := []byte{0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x31 | 8, 5, 0, 0, 0, 0, 0, 0}
	gg, err := Decode(&Encoded{GlyfData: g, LocaData: []byte{0, 0, 0, byte(len(g) / 2)}})
	if err != nil { return }
	s := gg[0].Data.(SimpleGlyph)
	s.Decode()
}
'''
