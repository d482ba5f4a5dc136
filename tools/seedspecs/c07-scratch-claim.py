id="c07-scratch-claim"; prop="C07"
needs="a class-based chained rule whose first action runs another contextual rule at the same glyphs, followed by a second action, in a context whose match buffer was allocated by an earlier match"
breaks="ChainedSeqContext2 leaves its match buffer available to nested rules, which overwrite the positions of the outer match"
edits=[("opentype/gtab/nested.go","""		next++
		for next < b && !keep.Keep(seq[next].GID) {
			next++
		}

		ctx.scratch = nil // claim the scratch space
		ctx.stack = append(ctx.stack, &nested{
			InputPos: matchPos,
			Actions:  rule.Actions,
			EndPos:   next,
		})
		return next
	}

	ctx.scratch = matchPos // release the scratch space
	return -1
}

// encodeLen implements the [Subtable] interface.
func (l *ChainedSeqContext2)""","""		next++
		for next < b && !keep.Keep(seq[next].GID) {
			next++
		}

		ctx.stack = append(ctx.stack, &nested{
			InputPos: matchPos,
			Actions:  rule.Actions,
			EndPos:   next,
		})
		return next
	}

	ctx.scratch = matchPos // release the scratch space
	return -1
}

// encodeLen implements the [Subtable] interface.
func (l *ChainedSeqContext2)""")]
dir="opentype/gtab"
demo='''package gtab
import ("testing";"fmt";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage";"seehuhn.de/go/sfnt/opentype/classdef")
func TestDemo(t *testing.T) {
	cls := classdef.Table{1: 1, 2: 1}
	ll := LookupList{
		{Meta: &LookupMetaInfo{LookupType: 6}, Subtables: []Subtable{&ChainedSeqContext2{
			Cov: coverage.Table{1: 0}, Backtrack: classdef.Table{}, Input: cls, Lookahead: classdef.Table{},
			Rules: [][]*ChainedClassSeqRule{nil, {{Input: []uint16{1}, Actions: []SeqLookup{{SequenceIndex: 1, LookupListIndex: 1}, {SequenceIndex: 0, LookupListIndex: 2}}}}}}}},
		{Meta: &LookupMetaInfo{LookupType: 5}, Subtables: []Subtable{&SeqContext1{Cov: coverage.Table{2: 0}, Rules: [][]*SeqRule{{{}}}}}},
		{Meta: &LookupMetaInfo{LookupType: 1}, Subtables: []Subtable{&Gsub1_1{Cov: coverage.Set{1: true, 2: true}, Delta: 10}}},
	}
	ctx := NewContext(ll, nil, []LookupIndex{0})
	in := []glyph.ID{1, 2, 1, 2, 1, 2}
	for k := 0; k < 4; k++ {
		var seq []glyph.Info
		for _, g := range in { seq = append(seq, glyph.Info{GID: g}) }
		var got []glyph.ID
		for _, g := range ctx.Apply(seq) { got = append(got, g.GID) }
		if fmt.Sprint(got) != "[11 2 11 2 11 2]" { t.Fatal(k, got) }
	}
}
'''
