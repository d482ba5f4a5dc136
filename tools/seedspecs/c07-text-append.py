id="c07-text-append"; prop="C07"
needs="input glyphs whose texts are adjacent parts of one array of characters, and a ligature rule which matches some glyphs"
breaks="collecting the text of a ligature overwrites the characters of the glyphs which follow"
edits=[("opentype/gtab/gsub.go","""		text = text[:0]

		matchPos = append(matchPos, a)
		text = append(text, seq[a].Text...)
""","""		text = seq[a].Text

		matchPos = append(matchPos, a)
""")]
dir="opentype/gtab"
demo='''package gtab
import ("testing";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage")
func TestDemo(t *testing.T) {
	ll := LookupList{{Meta: &LookupMetaInfo{LookupType: 4}, Subtables: []Subtable{
		&Gsub4_1{Cov: coverage.Table{1: 0}, Repl: [][]Ligature{{{In: []glyph.ID{2, 3}, Out: 4}}}}}}}
	rr := []rune{'x', 'y', 0x301, 'z'}
	// the glyph for the first two characters was decomposed: y has two parts
	seq := []glyph.Info{{GID: 1, Text: rr[0:1]}, {GID: 2, Text: rr[3:4]}, {GID: 9, Text: rr[1:3]}}
	NewContext(ll, nil, []LookupIndex{0}).Apply(seq)
	s := ""
	for _, g := range seq { s += string(g.Text) }
	if s != "xzy\\u0301" { t.Fatalf("%q", s) }
}
'''
