id="c18-optional-tables"; prop="C18"
needs="a TrueType font with one of the optional tables cvt/fpgm/prep/gasp, and a read error inside that table only"
breaks="an I/O error while reading an optional table is treated like a missing table: the font is accepted without it"
edits=[("read.go","""			data, err := dir.ReadTableBytes(rr, name)
			if err != nil {
				return nil, err
			}
			tables[name] = data
""","""			data, err := dir.ReadTableBytes(rr, name)
			if err != nil || len(data) == 0 {
				// these tables are optional
				continue
			}
			tables[name] = data
""")]
dir="."
demo='''package sfnt
import ("bytes";"errors";"io";"testing";"golang.org/x/image/font/gofont/goregular";"seehuhn.de/go/sfnt/header")
type bad struct{ r *bytes.Reader; a, b int64 }
func (b *bad) Read(p []byte) (int, error) { return 0, errors.New("unused") }
func (b *bad) ReadAt(p []byte, off int64) (int, error) {
	if off < b.b && off+int64(len(p)) > b.a { return 0, errors.New("bad sector") }
	return b.r.ReadAt(p, off)
}
func TestDemo(t *testing.T) {
	rd := bytes.NewReader(goregular.TTF)
	dir, err := header.Read(rd)
	if err != nil { t.Fatal(err) }
	for _, name := range []string{"cvt ", "prep", "fpgm", "gasp"} {
		rec, ok := dir.Toc[name]
		if !ok || rec.Length == 0 { continue }
		var r io.Reader = &bad{rd, int64(rec.Offset), int64(rec.Offset) + int64(rec.Length)}
		if _, err := Read(r); err == nil { t.Fatal("read error lost:", name) }
	}
}
'''
