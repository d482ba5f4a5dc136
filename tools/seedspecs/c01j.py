id="c01-rlinecurve-stack"; prop="C01"
needs="a CFF glyph with a run of 22 to 24 oblique lines directly followed by a curve"
breaks="the six arguments of the curve in rlinecurve are not counted: the argument stack of the charstring overflows and the written font cannot be read"
edits=[("cff/t2encode.go","cmds[pos].Op == OpCurveTo && len(code)+6 <= maxStack {\n			edges","cmds[pos].Op == OpCurveTo && len(code)+2 <= maxStack {\n			edges")]
dir="cff"
demo='''package cff
import "testing"
func TestDemo(t *testing.T) {
	for n := 1; n < 60; n++ {
		g := NewGlyph("A", 500)
		g.MoveTo(0, 0)
		for i := 0; i < n; i++ { g.LineTo(float64(10*i+10), float64(7*i*(i%2)+7)) }
		g.CurveTo(1, 2, 33, 44, 55, 67)
		code, err := g.encodeCharString(0, 0)
		if err != nil { t.Fatal(err) }
		h, err := (&decodeInfo{}).decodeCharString(code)
		if err != nil { t.Fatal(n, err) }
		if len(h.Cmds) != len(g.Cmds) { t.Fatal(n, len(h.Cmds), len(g.Cmds)) }
	}
}
'''
