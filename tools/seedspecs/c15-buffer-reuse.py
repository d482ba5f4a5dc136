id="c15-buffer-reuse"; prop="C15"
needs="two Layout calls with the same Layouter; a mark glyph in the second string at a position where the first result had a non-zero advance or offset"
breaks="glyph records are recycled without clearing advance and offsets, so the second result contains positions of the first"
edits=[("layout.go","""		seq = append(seq, glyph.Info{
			GID:  gid,
			Text: []rune{r},
		})
""","""		if len(seq) < cap(seq) {
			seq = seq[:len(seq)+1] // reuse the record from the last call
			seq[len(seq)-1].GID = gid
			seq[len(seq)-1].Text = []rune{r}
			continue
		}
		seq = append(seq, glyph.Info{
			GID:  gid,
			Text: []rune{r},
		})
""")]
dir="."
demo='''package sfnt
import ("testing";"golang.org/x/text/language";"seehuhn.de/go/sfnt/cff";"seehuhn.de/go/sfnt/cmap";"seehuhn.de/go/sfnt/opentype/gdef";"seehuhn.de/go/sfnt/opentype/classdef")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{".notdef", "A", "acutecomb"} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &Font{Outlines: o, Gdef: &gdef.Table{GlyphClass: classdef.Table{2: gdef.GlyphClassMark}}}
	f.InstallCMap(cmap.Format4{'A': 1, 0x301: 2})
	l, err := f.NewLayouter(language.Und, nil, nil)
	if err != nil { t.Fatal(err) }
	l.Layout("AA")
	if g := l.Layout("A\\u0301"); g[1].Advance != 0 { t.Fatal(g) }
}
'''
