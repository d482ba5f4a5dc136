id="c02-fmt12-cap"; prop="C02"
needs="a format 12 cmap subtable of several hundred 12-byte groups, each mapping tens of thousands of characters"
breaks="the cap is applied per group only, so a few KB of input allocate gigabytes"
edits=[("cmap/format12.go","""		size += endCharCode - startCharCode + 1
		if size > 65536 {""","""		size = endCharCode - startCharCode + 1
		if size > 65536 {""")]
dir="cmap"
demo='''package cmap
import "testing"
func TestDemo(t *testing.T) {
	const n = 40
	data := make([]byte, 16+12*n)
	data[1] = 12
	data[15] = n
	data[6], data[7] = byte(len(data)>>8), byte(len(data))
	for i := 0; i < n; i++ {
		p := data[16+12*i:]
		p[1] = byte(i)
		p[5], p[6], p[7] = byte(i), 0xFF, 0xFF
	}
	tab := Table{Key{3, 10, 0}: data}
	sub, err := tab.GetBest()
	if err != nil { return }
	lo, hi := sub.CodeRange()
	t.Fatal("accepted", lo, hi)
}
'''
