id="c02-loca-last"; prop="C02"
needs="a long-format loca table whose last entry is smaller than the one before"
breaks="glyf.Decode panics (slice bounds out of range)"
edits=[("glyf/loca.go","""			if pos < prev || pos > len(enc.GlyfData) {
				return nil, &parser.InvalidFontError{
					SubSystem: "sfnt/loca",
					Reason:    "invalid offset",""","""			if (pos < prev && i < len(offs)-1) || pos > len(enc.GlyfData) {
				return nil, &parser.InvalidFontError{
					SubSystem: "sfnt/loca",
					Reason:    "invalid offset",""")]
dir="glyf"
demo='''package glyf
import "testing"
func TestDemo(t *testing.T) {
	Decode(&Encoded{GlyfData: make([]byte, 24), LocaData: []byte{0, 0, 0, 0, 0, 0, 0, 12, 0, 0, 0, 0}, LocaFormat: 1})
}
'''
