id="c07-reverse-end"; prop="C07"
needs="a GSUB 8.1 rule with lookahead, applied to the last glyph of a text"
breaks="the search for the lookahead glyph reads past the end of the sequence: index out of range"
edits=[("opentype/gtab/gsub.go","""		for p+glyphsNeeded < len(seq) && !keep.Keep(seq[p].GID) {
			p++
		}
		if p+glyphsNeeded >= len(seq) || !cov.Contains""","""		for p+glyphsNeeded <= len(seq) && !keep.Keep(seq[p].GID) {
			p++
		}
		if p+glyphsNeeded >= len(seq) || !cov.Contains""")]
dir="opentype/gtab"
demo='''package gtab
import ("testing";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage")
func TestDemo(t *testing.T) {
	ll := LookupList{{Meta: &LookupMetaInfo{LookupType: 8}, Subtables: []Subtable{
		&Gsub8_1{Input: coverage.Table{1: 0}, Lookahead: []coverage.Table{{2: 0}}, SubstituteGlyphIDs: []glyph.ID{3}}}}}
	seq := []glyph.Info{{GID: 1}}
	NewContext(ll, nil, []LookupIndex{0}).Apply(seq)
}
'''
