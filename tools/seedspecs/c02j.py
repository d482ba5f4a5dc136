id="c02-cmap4-array"; prop="C02"
needs="a format 4 cmap subtable whose last segment uses idRangeOffset and ends exactly one entry past the glyph id array"
breaks="cmap lookup panics with index out of range"
edits=[("cmap/format4.go","""			if d < 0 || d+int(end-start) > len(glyphIDArray) {""","""			if d < 0 || d+int(end-1-start) > len(glyphIDArray) {""")]
dir="cmap"
demo='''package cmap
import "testing"
func TestDemo(t *testing.T) {
	f := Format4{65: 5, 66: 3, 67: 9, 68: 2, 69: 7, 70: 4, 71: 8, 72: 1}
	data := f.Encode(0)
	for k := 0; k < 16 && len(data) > 24; k++ {
		data = data[:len(data)-2]
		data[2], data[3] = byte(len(data)>>8), byte(len(data))
		tab := Table{Key{3, 1, 0}: data}
		tab.GetBest()
	}
}
'''
