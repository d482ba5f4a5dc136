id="c17-seek-window"; prop="C17"
needs="a reader returning short reads (or a window at the end of the input), and a seek to a position behind the filled part of the buffer but less than 1024 bytes after its start"
breaks="the parser believes the bytes between the fill level and the buffer size are loaded"
edits=[("parser/parser.go","	if filePos >= p.from && filePos <= p.from+int64(p.used) {","	if filePos >= p.from && p.used > 0 && filePos <= p.from+int64(len(p.buf)) {")]
dir="parser"
demo='''package parser
import ("testing";"bytes";"testing/iotest";"io")
type rs struct { *bytes.Reader; h io.Reader }
func (r rs) Read(b []byte) (int, error) { return r.h.Read(b) }
func TestDemo(t *testing.T) {
	d := make([]byte, 900); for i := range d { d[i] = byte(i*7) }
	b := bytes.NewReader(d)
	p := New(rs{b, iotest.HalfReader(b)})
	defer func() { if e := recover(); e != nil { t.Fatal(e) } }()
	if _, err := p.ReadUint8(); err != nil { t.Fatal(err) }
	if err := p.SeekPos(700); err != nil { t.Fatal(err) }
	x, err := p.ReadUint8()
	if err != nil || x != d[700] { t.Fatal(x, err) }
}
'''
