id="c02-index-last"; prop="C02"
needs="a CFF INDEX whose final offset is far beyond the end of the file"
breaks="cff.Read allocates up to 4 GB for a file of a few bytes"
edits=[("cff/index.go","""		if offs < prevOffset || int64(offs) >= size {""","""		if offs < prevOffset || i < int(count) && int64(offs) >= size {""")]
dir="cff"
demo='''package cff
import ("bytes";"testing";"runtime";"seehuhn.de/go/sfnt/parser")
func TestDemo(t *testing.T) {
	b := []byte{0, 1, 4, 0, 0, 0, 1, 0x30, 0, 0, 1, 0, 0, 0, 0}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	readIndex(parser.New(bytes.NewReader(b)))
	runtime.ReadMemStats(&m1)
	if m1.TotalAlloc-m0.TotalAlloc > 100<<20 { t.Fatal("too much memory", m1.TotalAlloc-m0.TotalAlloc) }
}
'''
