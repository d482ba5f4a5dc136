id="c07-keep-cache"; prop="C07"
needs="two lookups with the same flags but different mark filtering sets, and a context used for several texts"
breaks="the glyph filter is cached in the context by lookup flags alone, so it depends on which lookup was used first"
edits=[("opentype/gtab/layout.go","""		lookup := ctx.ll[lookupIndex]
		keep := newKeepFunc(lookup.Meta, ctx.gdef)
""","""		lookup := ctx.ll[lookupIndex]
		flags := lookup.Meta.LookupFlags
		keep, ok := ctx.keepCache[flags]
		if !ok {
			keep = newKeepFunc(lookup.Meta, ctx.gdef)
			if ctx.keepCache == nil {
				ctx.keepCache = make(map[LookupFlags]*keepFunc)
			}
			ctx.keepCache[flags] = keep
		}
"""),("opentype/gtab/layout.go","""	scratch []int
}""","""	scratch []int

	// keepCache holds the glyph filters for nested lookups.
	keepCache map[LookupFlags]*keepFunc
}""")]
dir="opentype/gtab"
demo='''package gtab
import ("testing";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage";"seehuhn.de/go/sfnt/opentype/gdef";"seehuhn.de/go/sfnt/opentype/classdef")
func TestDemo(t *testing.T) {
	act := func(l LookupIndex) [][]*SeqRule { return [][]*SeqRule{{{Actions: []SeqLookup{{SequenceIndex: 0, LookupListIndex: l}}}}} }
	sub := func(set uint16) *LookupTable { return &LookupTable{Meta: &LookupMetaInfo{LookupType: 1, LookupFlags: UseMarkFilteringSet, MarkFilteringSet: set},
		Subtables: []Subtable{&Gsub1_1{Cov: coverage.Set{1: true, 2: true}, Delta: 10}}} }
	ll := LookupList{
		{Meta: &LookupMetaInfo{LookupType: 5}, Subtables: []Subtable{&SeqContext1{Cov: coverage.Table{1: 0}, Rules: act(2)}}},
		{Meta: &LookupMetaInfo{LookupType: 5}, Subtables: []Subtable{&SeqContext1{Cov: coverage.Table{2: 0}, Rules: act(3)}}},
		sub(0), sub(1),
	}
	g := &gdef.Table{GlyphClass: classdef.Table{1: gdef.GlyphClassMark, 2: gdef.GlyphClassMark}, MarkGlyphSets: []coverage.Set{{1: true}, {2: true}}}
	ctx := NewContext(ll, g, []LookupIndex{0, 1})
	for _, x := range []struct{in, out glyph.ID}{{1, 11}, {2, 12}} {
		if s := ctx.Apply([]glyph.Info{{GID: x.in}}); s[0].GID != x.out { t.Fatal(s) }
	}
}
'''
