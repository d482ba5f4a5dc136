id="c07-lookup-index"; prop="C07"
needs="a contextual rule whose action refers to the lookup just past the end of the lookup list"
breaks="the range check of nested lookup indices is off by one: index out of range"
edits=[("opentype/gtab/layout.go","""		if int(lookupIndex) >= len(ctx.ll) {
			continue
		}

		lookup := ctx.ll[lookupIndex]""","""		if int(lookupIndex) > len(ctx.ll) {
			continue
		}

		lookup := ctx.ll[lookupIndex]""")]
dir="opentype/gtab"
demo='''package gtab
import ("testing";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage")
func TestDemo(t *testing.T) {
	ll := LookupList{{Meta: &LookupMetaInfo{LookupType: 5}, Subtables: []Subtable{
		&SeqContext1{Cov: coverage.Table{1: 0}, Rules: [][]*SeqRule{{{Actions: []SeqLookup{{SequenceIndex: 0, LookupListIndex: 1}}}}}}}}}
	NewContext(ll, nil, []LookupIndex{0}).Apply([]glyph.Info{{GID: 1}})
}
'''
