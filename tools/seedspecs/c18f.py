id="c18-post-names"; prop="C18"
needs="a TrueType font whose post table is longer than one parser buffer (1024 bytes), and a read error which strikes between the glyph names only"
breaks="an I/O error in the middle of the glyph names is swallowed: the font is returned with the remaining names missing"
edits=[("post/post.go","""		for i, idx := range glyphNameIndex {
			idx := int(idx)
""","""	nameLoop:
		for i, idx := range glyphNameIndex {
			idx := int(idx)
"""),("post/post.go","""					buf, err := p.ReadBytes(int(l))
					if err != nil {
						return nil, err
					}
""","""					buf, err := p.ReadBytes(int(l))
					if err != nil && len(names) > 0 {
						// string data is cut short, keep what we have
						break nameLoop
					} else if err != nil {
						return nil, err
					}
""")]
dir="post"
demo='''package post
import ("bytes";"errors";"fmt";"testing")
type bad struct{ *bytes.Reader; a int64; pos int64 }
func (b *bad) Seek(o int64, w int) (int64, error) { p, err := b.Reader.Seek(o, w); b.pos = p; return p, err }
func (b *bad) Read(p []byte) (int, error) {
	if b.pos >= b.a { return 0, errors.New("bad sector") }
	if b.pos+int64(len(p)) > b.a { p = p[:b.a-b.pos] }
	n, err := b.Reader.Read(p); b.pos += int64(n); return n, err
}
func TestDemo(t *testing.T) {
	var names []string
	for i := 0; i < 300; i++ { names = append(names, fmt.Sprintf("glyphname%d", i)) }
	data := (&Info{Names: names}).Encode()
	for k := 32; k < len(data); k++ {
		info, err := Read(&bad{Reader: bytes.NewReader(data), a: int64(k)})
		if err == nil { t.Fatal("read error lost", k, len(info.Names)) }
	}
}
'''
