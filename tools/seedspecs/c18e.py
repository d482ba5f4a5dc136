id="c18-last-section"; prop="C18"
needs="(*cff.Font).Write to a destination that fails in one CFF section but takes the following ones (transient error), or a short write in the middle"
breaks="only the error of the last CFF section is reported"
edits=[("cff/write.go","""	for i := 0; i < numSections; i++ {
		_, err = w.Write(blobs[i])
		if err != nil {
			return err
		}
	}

	return nil
""","""	for i := 0; i < numSections; i++ {
		if len(blobs[i]) == 0 {
			continue
		}
		_, err = w.Write(blobs[i])
	}

	return err
""")]
dir="cff"
demo='''package cff
import ("errors";"testing";"seehuhn.de/go/geom/matrix";"seehuhn.de/go/postscript/type1";"seehuhn.de/go/sfnt/glyph")
type nth struct{ n int }
func (l *nth) Write(p []byte) (int, error) {
	l.n--
	if l.n == 0 { return 0, errors.New("transient") }
	return len(p), nil
}
func TestDemo(t *testing.T) {
	g := NewGlyph(".notdef", 500)
	g.MoveTo(0, 0); g.LineTo(10, 0); g.LineTo(10, 10)
	f := &Font{FontInfo: &type1.FontInfo{FontName: "X", FontMatrix: matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}},
		Outlines: &Outlines{Glyphs: []*Glyph{g}, Private: []*type1.PrivateDict{{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}},
		FDSelect: func(glyph.ID) int { return 0 }, Encoding: make([]glyph.ID, 256)}}
	for n := 1; n < 20; n++ {
		w := &nth{n}
		err := f.Write(w)
		if w.n <= 0 && err == nil { t.Fatal("write error lost, call", n) }
	}
}
'''
