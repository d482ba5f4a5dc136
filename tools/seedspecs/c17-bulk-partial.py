id="c17-bulk-partial"; prop="C17"
needs="a bulk read of more than 1024 bytes which passes the end of the input after the first chunk"
breaks="partial data is returned as success"
edits=[("parser/parser.go","""		if len(buf) > 0 && err != nil {
			return total, err
		}
""","""		if err == io.ErrUnexpectedEOF && total > 0 && len(tmp) == 0 && k == 0 {
			// like for an io.Reader, report a short read
			return total, nil
		}
		if len(buf) > 0 && err != nil {
			return total, err
		}
""")]
dir="parser"
demo='''package parser
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	p := New(bytes.NewReader(make([]byte, 1500)))
	n, err := p.Read(make([]byte, 2000))
	if err == nil { t.Fatal(n) }
}
'''
