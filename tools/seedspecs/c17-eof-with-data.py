id="c17-eof-with-data"; prop="C17"
needs="a reader which returns its last bytes together with io.EOF, and a multi-byte read which straddles the previous end of the buffer"
breaks="the read fails although all requested bytes are inside the input"
edits=[("parser/parser.go","""			if l > 0 {
				err = nil""","""			if l >= n {
				err = nil""")]
dir="parser"
demo='''package parser
import ("testing";"bytes";"testing/iotest";"io")
type rs struct { *bytes.Reader; h io.Reader }
func (r rs) Read(b []byte) (int, error) { return r.h.Read(b) }
func TestDemo(t *testing.T) {
	d := make([]byte, 1025)
	b := bytes.NewReader(d)
	p := New(rs{b, iotest.DataErrReader(b)})
	if err := p.SeekPos(1); err != nil { t.Fatal(err) }
	if _, err := p.ReadBytes(1020); err != nil { t.Fatal(err) }
	_ = p.SeekPos(0)
	if _, err := p.ReadBytes(1023); err != nil { t.Fatal(err) }
	if _, err := p.ReadUint16(); err != nil { t.Fatal(err) }
}
'''
