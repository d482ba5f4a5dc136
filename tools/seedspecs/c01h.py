id="c01-index-offsize"; prop="C01"
needs="a CFF INDEX (names, strings, subroutines or charstrings) whose data is exactly 255 or 65535 bytes long"
breaks="the offset size of the INDEX is chosen one byte too small for the final offset, so the last entry has a wrong end"
edits=[("cff/index.go","""	for bodyLength+1 >= 1<<(8*offSize) {
""","""	for bodyLength >= 1<<(8*offSize) {
""")]
dir="cff"
demo='''package cff
import ("testing";"bytes";"seehuhn.de/go/sfnt/parser")
func TestDemo(t *testing.T) {
	for _, n := range []int{254, 255, 256, 65534, 65535, 65536} {
		in := cffIndex{make([]byte, 100), make([]byte, n-100)}
		p := parser.New(bytes.NewReader(in.encode()))
		out, err := readIndex(p)
		if err != nil { t.Fatal(n, err) }
		if len(out) != 2 || len(out[1]) != n-100 { t.Fatal(n) }
	}
}
'''
