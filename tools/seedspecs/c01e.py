id="c01-blue-scale"; prop="C01"
needs="a CFF font whose BlueScale is close to, but not equal to the default value (e.g. 0.04)"
breaks="BlueScale values within 0.001 of the default are not stored and come back as 0.039625"
edits=[("cff/font.go","""math.Abs(private.BlueScale-defaultBlueScale) > 1e-6""","""math.Abs(private.BlueScale-defaultBlueScale) > 1e-3""")]
dir="cff"
demo='''package cff
import ("testing";"bytes";"math";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/postscript/type1";"seehuhn.de/go/geom/matrix")
func TestDemo(t *testing.T) {
	g := NewGlyph(".notdef", 500)
	f := &Font{FontInfo: &type1.FontInfo{FontName: "X", FontMatrix: matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}}, Outlines: &Outlines{Glyphs: []*Glyph{g}, Private: []*type1.PrivateDict{{BlueScale: 0.04, BlueShift: 7, BlueFuzz: 1}}, FDSelect: func(gid glyph.ID) int { return 0 }, Encoding: make([]glyph.ID, 256)}}
	var buf bytes.Buffer
	if err := f.Write(&buf); err != nil { t.Fatal(err) }
	got, err := Read(bytes.NewReader(buf.Bytes()))
	if err != nil { t.Fatal(err) }
	if math.Abs(got.Private[0].BlueScale-0.04) > 1e-9 { t.Fatal(got.Private[0].BlueScale) }
}
'''
