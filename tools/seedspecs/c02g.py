id="c02-fdselect-range"; prop="C02"
needs="a CID-keyed CFF font with FDSelect format 3, at least two ranges, where a range after the first names the font dictionary one past the last"
breaks="cff.Read panics (index out of range) while decoding the charstrings"
edits=[("cff/fdselect.go","""			} else if int(fd) >= nPrivate {
				return nil, invalidSince("FDSelect out of range")
			}
			if i > 0 {""","""			} else if int(fd) > nPrivate || i == 0 && int(fd) == nPrivate {
				return nil, invalidSince("FDSelect out of range")
			}
			if i > 0 {""")]
dir="cff"
demo='''package cff
import ("bytes";"testing";"seehuhn.de/go/sfnt/parser";"seehuhn.de/go/sfnt/glyph")
func TestDemo(t *testing.T) {
	p := parser.New(bytes.NewReader([]byte{3, 0, 2, 0, 0, 0, 0, 2, 1, 0, 4}))
	fn, err := readFDSelect(p, 4, 1)
	if err != nil { return }
	for i := 0; i < 4; i++ {
		if fn(glyph.ID(i)) >= 1 { t.Fatal("out of range") }
	}
}
'''
