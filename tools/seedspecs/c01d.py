id="c01-created-default"; prop="C01"
needs="a font with a modification time, but no creation time"
breaks="a missing creation time is replaced by the modification time when the font is written"
edits=[("write.go","""func (f *Font) makeHead(locaFormat int16) []byte {
""","""func (f *Font) makeHead(locaFormat int16) []byte {
	created := f.CreationTime
	if created.IsZero() {
		created = f.ModificationTime
	}
"""),("write.go","		Created:       f.CreationTime,","		Created:       created,")]
dir="."
demo='''package sfnt
import ("testing";"time";"bytes";"seehuhn.de/go/sfnt/head";"seehuhn.de/go/sfnt/glyf";"seehuhn.de/go/postscript/funit")
func TestDemo(t *testing.T) {
	f := &Font{UnitsPerEm: 1000, ModificationTime: time.Unix(1700000000, 0), Outlines: &glyf.Outlines{Glyphs: glyf.Glyphs{nil}, Widths: []funit.Int16{500}}}
	data := f.makeHead(0)
	info, err := head.Read(bytes.NewReader(data))
	if err != nil { t.Fatal(err) }
	if !info.Created.IsZero() { t.Fatal(info.Created) }
}
'''
