// Package gen generates fonts, layout tables and glyph sequences.
package gen

import (
	"sort"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"

	"verif/sim/worker/core"
)

// LOpt controls the generation of lookup lists.
type LOpt struct {
	N        int   // number of glyphs
	Gpos     bool  // GPOS instead of GSUB
	Types    []int // lookup types allowed
	Max      int   // max number of lookups
	Wild     bool  // anything a reader can deliver (out of range indices, empty lists)
	Alpha    int   // restrict most glyphs to [1,Alpha] (0: all)
	Flags    []gtab.LookupFlags
	MarkSets int  // number of mark glyph sets in GDEF
	MaxAct   int  // maximal number of nested actions
	Tight    bool // rules overlap much, so that lookups interact
	Long     int  // occasional length of glyph lists (0: no long lists)
}

// GID draws a glyph id.
func (o *LOpt) GID(c *core.C) glyph.ID {
	if o.Wild && c.P(1, 40) {
		return glyph.ID(c.N(65536))
	}
	n := o.N
	if o.Alpha > 0 && o.Alpha < n && !c.P(1, 10) {
		return glyph.ID(1 + c.N(o.Alpha))
	}
	if n <= 1 {
		return 0
	}
	return glyph.ID(1 + c.N(n-1))
}

func (o *LOpt) gids(c *core.C, lo, hi int) []glyph.ID {
	k := c.R(lo, hi)
	if o.Tight && k > lo && c.P(1, 2) {
		k = c.R(lo, k)
	}
	if o.Long > hi && c.P(1, 12) {
		k = c.R(lo, o.Long)
	}
	res := make([]glyph.ID, k)
	for i := range res {
		res[i] = o.GID(c)
	}
	return res
}

// gidSet draws a sorted, duplicate free, non-empty list.
func (o *LOpt) gidSet(c *core.C, maxLen int) []glyph.ID {
	var ids []glyph.ID
	if o.Tight {
		for g := 1; g <= o.Alpha && g < o.N; g++ {
			if c.P(3, 4) {
				ids = append(ids, glyph.ID(g))
			}
		}
	} else if c.P(1, 4) {
		// a range
		a := int(o.GID(c))
		l := c.R(1, maxLen)
		for g := a; g < a+l && g < o.N; g++ {
			ids = append(ids, glyph.ID(g))
		}
	}
	if len(ids) == 0 {
		ids = o.gids(c, 1, maxLen)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	k := 0
	for i, g := range ids {
		if i == 0 || g != ids[k-1] {
			ids[k] = g
			k++
		}
	}
	return ids[:k]
}

func Cov(ids []glyph.ID) coverage.Table {
	t := coverage.Table{}
	for i, g := range ids {
		t[g] = i
	}
	return t
}

func Set(ids []glyph.ID) coverage.Set {
	t := coverage.Set{}
	for _, g := range ids {
		t[g] = true
	}
	return t
}

func (o *LOpt) classes(c *core.C, maxClass int) classdef.Table {
	t := classdef.Table{}
	for i, n := 0, c.R(0, 6); i < n; i++ {
		cl := c.R(1, max(1, maxClass))
		if o.Wild && c.P(1, 20) {
			cl = c.N(65536)
		}
		if cl == 0 {
			continue
		}
		t[o.GID(c)] = uint16(cl)
	}
	return t
}

func val(c *core.C) funit.Int16 {
	switch c.W(6, 1) {
	case 0:
		return funit.Int16(c.R(0, 200) - 100)
	default:
		return funit.Int16(c.N(65536) - 32768)
	}
}

func (o *LOpt) valueRecord(c *core.C, allowNil bool) *gtab.GposValueRecord {
	if (allowNil || o.Wild) && c.P(1, 4) {
		return nil
	}
	v := &gtab.GposValueRecord{}
	m := c.R(1, 7)
	for *v == (gtab.GposValueRecord{}) {
		if m&1 != 0 {
			v.XAdvance = val(c)
		}
		if m&2 != 0 {
			v.XPlacement = val(c)
		}
		if m&4 != 0 {
			v.YPlacement = val(c)
		}
		m |= 1
		if *v == (gtab.GposValueRecord{}) {
			v.XAdvance = 1
		}
	}
	return v
}

func (o *LOpt) anchor(c *core.C) anchor.Table {
	if c.P(1, 6) {
		return anchor.Table{}
	}
	return anchor.Table{X: val(c), Y: val(c)}
}

func (o *LOpt) actions(c *core.C, inputLen, numLookups int) []gtab.SeqLookup {
	m := o.MaxAct
	if m == 0 {
		m = 3
	}
	var k int
	if m > 3 && c.P(1, 4) {
		k = c.R(0, m)
	} else if o.Tight {
		k = c.R(1, 4)
	} else {
		k = c.R(0, 3)
	}
	var res []gtab.SeqLookup
	for i := 0; i < k; i++ {
		a := gtab.SeqLookup{
			SequenceIndex:   uint16(c.N(inputLen)),
			LookupListIndex: gtab.LookupIndex(c.N(numLookups)),
		}
		if o.Wild && c.P(1, 12) {
			a.SequenceIndex = uint16(inputLen + c.N(2))
			if c.P(1, 2) {
				a.SequenceIndex = uint16(c.N(65536))
			}
		}
		if o.Wild && c.P(1, 12) {
			a.LookupListIndex = gtab.LookupIndex(numLookups + c.N(2))
			if c.P(1, 2) {
				a.LookupListIndex = gtab.LookupIndex(c.N(65536))
			}
		}
		res = append(res, a)
	}
	return res
}

func (o *LOpt) sets(c *core.C, lo, hi int) []coverage.Set {
	var res []coverage.Set
	for i, k := 0, c.R(lo, hi); i < k; i++ {
		res = append(res, Set(o.gidSet(c, 4)))
	}
	return res
}

func classSeq(c *core.C, lo, hi, maxClass int) []uint16 {
	var res []uint16
	for i, k := 0, c.R(lo, hi); i < k; i++ {
		res = append(res, uint16(c.N(maxClass+1)))
	}
	return res
}

// lo1 is the minimal length of rule sets: 1, or sometimes 0 in wild mode.
func (o *LOpt) lo1(c *core.C) int {
	if o.Wild && c.P(1, 6) {
		return 0
	}
	return 1
}

// cut optionally drops entries of a per-coverage list (wild mode).
func cut[T any](o *LOpt, c *core.C, s []T) []T {
	if o.Wild && len(s) > 0 && c.P(1, 15) {
		return s[:c.N(len(s))]
	}
	return s
}

// Subtable generates one subtable for the given lookup type.
func (o *LOpt) Subtable(c *core.C, tp, numLookups int) gtab.Subtable {
	ctxType := tp
	if o.Gpos {
		ctxType = tp - 2
		switch tp {
		case 1:
			ids := o.gidSet(c, 5)
			if c.P(1, 2) {
				return &gtab.Gpos1_1{Cov: Cov(ids), Adjust: o.valueRecord(c, false)}
			}
			l := &gtab.Gpos1_2{Cov: Cov(ids)}
			for range ids {
				l.Adjust = append(l.Adjust, o.valueRecord(c, false))
			}
			return l
		case 2:
			if c.P(1, 2) {
				l := gtab.Gpos2_1{}
				for i, k := 0, c.R(1, 6); i < k; i++ {
					l[glyph.Pair{Left: o.GID(c), Right: o.GID(c)}] = &gtab.PairAdjust{
						First: o.valueRecord(c, false), Second: o.valueRecord(c, true)}
				}
				return l
			}
			n1, n2 := c.R(1, 3), c.R(1, 3)
			l := &gtab.Gpos2_2{Cov: Set(o.gidSet(c, 6)), Class1: o.classes(c, n1-1), Class2: o.classes(c, n2-1)}
			if n1 == 1 {
				l.Class1 = classdef.Table{}
			}
			if n2 == 1 {
				l.Class2 = classdef.Table{}
			}
			for i := 0; i < n1; i++ {
				var row []*gtab.PairAdjust
				for j := 0; j < n2; j++ {
					row = append(row, &gtab.PairAdjust{First: o.valueRecord(c, false), Second: o.valueRecord(c, false)})
				}
				l.Adjust = append(l.Adjust, row)
			}
			if o.Wild && c.P(1, 8) {
				k := c.N(n2)
				for i := range l.Adjust {
					l.Adjust[i] = l.Adjust[i][:k]
				}
			}
			l.Adjust = cut(o, c, l.Adjust)
			return l
		case 3:
			ids := o.gidSet(c, 5)
			l := &gtab.Gpos3_1{Cov: Cov(ids)}
			for range ids {
				l.Records = append(l.Records, gtab.EntryExitRecord{Entry: o.anchor(c), Exit: o.anchor(c)})
			}
			return l
		case 4, 6:
			m, b := o.gidSet(c, 4), o.gidSet(c, 4)
			k := c.R(1, 3)
			var marks []markarray.Record
			used := 0
			for range m {
				cl := c.N(k)
				used = max(used, cl+1)
				marks = append(marks, markarray.Record{Class: uint16(cl), Table: o.anchor(c)})
			}
			var arr [][]anchor.Table
			for range b {
				var row []anchor.Table
				for j := 0; j < k; j++ {
					row = append(row, o.anchor(c))
				}
				arr = append(arr, row)
			}
			if o.Wild && c.P(1, 10) {
				marks[0].Class = uint16(k)
				if c.P(1, 2) {
					marks[0].Class = uint16(c.N(65536))
				}
			}
			if tp == 4 {
				return &gtab.Gpos4_1{MarkCov: Cov(m), BaseCov: Cov(b), MarkArray: marks, BaseArray: arr}
			}
			return &gtab.Gpos6_1{Mark1Cov: Cov(m), Mark2Cov: Cov(b), Mark1Array: marks, Mark2Array: arr}
		}
	} else {
		switch tp {
		case 1:
			ids := o.gidSet(c, 6)
			if c.P(1, 2) {
				delta := c.R(0, 4)
				hi := int(ids[len(ids)-1])
				if !o.Wild && hi+delta >= o.N {
					delta = o.N - 1 - hi
				}
				if c.P(1, 4) && int(ids[0]) > 1 {
					delta = -c.N(int(ids[0]))
				}
				return &gtab.Gsub1_1{Cov: Set(ids), Delta: glyph.ID(delta)}
			}
			l := &gtab.Gsub1_2{Cov: Cov(ids)}
			l.SubstituteGlyphIDs = o.gids(c, len(ids), len(ids))
			return l
		case 2, 3:
			ids := o.gidSet(c, 4)
			var out [][]glyph.ID
			for range ids {
				lo := 1
				if o.Wild && c.P(1, 8) {
					lo = 0
				}
				out = append(out, o.gids(c, lo, 4))
			}
			if tp == 2 {
				return &gtab.Gsub2_1{Cov: Cov(ids), Repl: out}
			}
			return &gtab.Gsub3_1{Cov: Cov(ids), Alternates: out}
		case 4:
			ids := o.gidSet(c, 4)
			l := &gtab.Gsub4_1{Cov: Cov(ids)}
			for range ids {
				var set []gtab.Ligature
				for i, k := 0, c.R(o.lo1(c), 3); i < k; i++ {
					set = append(set, gtab.Ligature{In: o.gids(c, 0, 3), Out: o.GID(c)})
				}
				l.Repl = append(l.Repl, set)
			}
			return l
		case 8:
			ids := o.gidSet(c, 4)
			l := &gtab.Gsub8_1{Input: Cov(ids), SubstituteGlyphIDs: o.gids(c, len(ids), len(ids))}
			for i, k := 0, c.N(3); i < k; i++ {
				l.Backtrack = append(l.Backtrack, Cov(o.gidSet(c, 3)))
			}
			for i, k := 0, c.N(3); i < k; i++ {
				l.Lookahead = append(l.Lookahead, Cov(o.gidSet(c, 3)))
			}
			return l
		}
	}
	switch ctxType {
	case 5:
		switch c.N(3) {
		case 0:
			ids := o.gidSet(c, 3)
			l := &gtab.SeqContext1{Cov: Cov(ids)}
			for range ids {
				var set []*gtab.SeqRule
				for i, k := 0, c.R(o.lo1(c), 2); i < k; i++ {
					in := o.gids(c, 0, 3)
					set = append(set, &gtab.SeqRule{Input: in, Actions: o.actions(c, len(in)+1, numLookups)})
				}
				l.Rules = append(l.Rules, set)
			}
			return l
		case 1:
			n := c.R(1, 3)
			l := &gtab.SeqContext2{Cov: Cov(o.gidSet(c, 6)), Input: o.classes(c, n-1)}
			if n == 1 {
				l.Input = classdef.Table{}
			}
			for i := 0; i < n; i++ {
				var set []*gtab.ClassSeqRule
				for j, k := 0, c.R(0, 2); j < k; j++ {
					in := classSeq(c, 0, 3, n-1)
					set = append(set, &gtab.ClassSeqRule{Input: in, Actions: o.actions(c, len(in)+1, numLookups)})
				}
				l.Rules = append(l.Rules, set)
			}
			l.Rules = cut(o, c, l.Rules)
			return l
		default:
			in := o.sets(c, 1, 4)
			return &gtab.SeqContext3{Input: in, Actions: o.actions(c, len(in), numLookups)}
		}
	case 6:
		switch c.N(3) {
		case 0:
			ids := o.gidSet(c, 3)
			l := &gtab.ChainedSeqContext1{Cov: Cov(ids)}
			for range ids {
				var set []*gtab.ChainedSeqRule
				for i, k := 0, c.R(o.lo1(c), 2); i < k; i++ {
					in := o.gids(c, 0, 3)
					set = append(set, &gtab.ChainedSeqRule{
						Backtrack: o.gids(c, 0, 2), Input: in, Lookahead: o.gids(c, 0, 2),
						Actions: o.actions(c, len(in)+1, numLookups)})
				}
				l.Rules = append(l.Rules, set)
			}
			return l
		case 1:
			n := c.R(1, 3)
			l := &gtab.ChainedSeqContext2{Cov: Cov(o.gidSet(c, 6)), Backtrack: o.classes(c, 2), Input: o.classes(c, n-1), Lookahead: o.classes(c, 2)}
			if n == 1 {
				l.Input = classdef.Table{}
			}
			for i := 0; i < n; i++ {
				var set []*gtab.ChainedClassSeqRule
				for j, k := 0, c.R(0, 2); j < k; j++ {
					in := classSeq(c, 0, 3, n-1)
					set = append(set, &gtab.ChainedClassSeqRule{
						Backtrack: classSeq(c, 0, 2, 2), Input: in, Lookahead: classSeq(c, 0, 2, 2),
						Actions: o.actions(c, len(in)+1, numLookups)})
				}
				l.Rules = append(l.Rules, set)
			}
			l.Rules = cut(o, c, l.Rules)
			return l
		default:
			in := o.sets(c, 1, 4)
			return &gtab.ChainedSeqContext3{Backtrack: o.sets(c, 0, 2), Input: in, Lookahead: o.sets(c, 0, 2),
				Actions: o.actions(c, len(in), numLookups)}
		}
	}
	core.Harness("gen: lookup type %d", tp)
	return nil
}

// LookupList generates a lookup list with 1..o.Max lookups.
func (o *LOpt) LookupList(c *core.C) gtab.LookupList {
	n := c.R(1, max(1, o.Max))
	var ll gtab.LookupList
	for i := 0; i < n; i++ {
		tp := o.Types[c.N(len(o.Types))]
		m := &gtab.LookupMetaInfo{LookupType: uint16(tp)}
		if len(o.Flags) > 0 {
			for c.P(1, 3) {
				f := o.Flags[c.N(len(o.Flags))]
				if f == gtab.UseMarkFilteringSet {
					if o.MarkSets == 0 && !o.Wild {
						continue
					}
					m.MarkFilteringSet = uint16(c.N(max(1, o.MarkSets)))
					if o.Wild && c.P(1, 4) {
						m.MarkFilteringSet = uint16(c.N(65536))
					}
				}
				m.LookupFlags |= f
			}
			if c.P(1, 8) {
				m.LookupFlags |= gtab.LookupFlags(c.R(0, 3) << 8)
			}
		}
		l := &gtab.LookupTable{Meta: m}
		lo := 1
		if o.Wild {
			lo = 0
			if c.P(9, 10) {
				lo = 1
			}
		}
		for j, k := 0, c.R(lo, 3); j < k; j++ {
			l.Subtables = append(l.Subtables, o.Subtable(c, tp, n))
		}
		ll = append(ll, l)
	}
	return ll
}

var AllFlags = []gtab.LookupFlags{gtab.IgnoreMarks, gtab.IgnoreLigatures, gtab.IgnoreBaseGlyphs, gtab.RightToLeft, gtab.UseMarkFilteringSet}

var GsubTypes = []int{1, 2, 3, 4, 5, 6, 8}
var GposTypes = []int{1, 2, 3, 4, 6, 7, 8}

// Tags are the language systems used for script lists.
var Tags = []string{
	"und-Zzzz-x-DFLT", "und-Latn-x-latn", "de-Latn-x-latn-deu", "tr-Latn-x-latn-trk", "ro-Latn-x-latn-rom",
	"und-Grek-x-grek", "und-Cyrl-x-cyrl", "ru-Cyrl-x-cyrl-rus", "sr-Cyrl-x-cyrl-srb", "und-Hebr-x-hebr",
	"und-Laoo-x-lao", "und-Yiii-x-yi", "und-Nkoo-x-nko", "und-Arab-x-arab", "ur-Arab-x-arab-urd", "hi-Deva-x-dev2-hin",
}

// Feature tags.
var GsubTags = []string{"liga", "calt", "ccmp", "clig", "locl", "smcp", "salt", "ss01", "test", "zero"}
var GposTags = []string{"kern", "mark", "mkmk", "cpsp", "test", "curs"}

// Info generates a GSUB or GPOS table around a lookup list.
func Info(c *core.C, ll gtab.LookupList, tags []string, maxSystems int, required bool, mainTag string) *gtab.Info {
	info := &gtab.Info{LookupList: ll, ScriptList: gtab.ScriptListInfo{}}
	nf := c.R(1, 5)
	for i := 0; i < nf; i++ {
		f := &gtab.Feature{Tag: tags[c.N(len(tags))]}
		if i == 0 && mainTag != "" {
			f.Tag = mainTag
			for j := range ll {
				f.Lookups = append(f.Lookups, gtab.LookupIndex(j))
			}
		} else {
			for j, k := 0, c.N(4); j < k; j++ {
				f.Lookups = append(f.Lookups, gtab.LookupIndex(c.N(len(ll))))
			}
		}
		info.FeatureList = append(info.FeatureList, f)
	}
	ns := c.R(1, max(1, maxSystems))
	for i := 0; i < ns; i++ {
		tag := language.MustParse(Tags[c.N(len(Tags))])
		if i == 0 {
			tag = language.MustParse(Tags[0])
		}
		ff := &gtab.Features{Required: 0xFFFF, Optional: []gtab.FeatureIndex{}}
		if required && c.P(1, 3) {
			ff.Required = gtab.FeatureIndex(c.N(nf))
		}
		if i == 0 && mainTag != "" {
			ff.Optional = append(ff.Optional, 0)
		}
		for j, k := 0, c.N(4); j < k; j++ {
			ff.Optional = append(ff.Optional, gtab.FeatureIndex(c.N(nf)))
		}
		info.ScriptList[tag] = ff
	}
	return info
}

// Gdef generates a GDEF table.
func Gdef(c *core.C, n int, markSets int) *gdef.Table {
	t := &gdef.Table{GlyphClass: classdef.Table{}}
	for g := 1; g < n; g++ {
		if g > 40 && !c.P(1, 10) {
			continue
		}
		if k := c.N(5); k > 0 {
			t.GlyphClass[glyph.ID(g)] = uint16(k)
		}
	}
	if len(t.GlyphClass) == 0 {
		t.GlyphClass[glyph.ID(min(1, n-1))] = gdef.GlyphClassMark
	}
	if c.P(1, 2) {
		t.MarkAttachClass = classdef.Table{}
		for g, cl := range sortedClasses(t.GlyphClass) {
			_ = g
			if cl.cl == gdef.GlyphClassMark {
				t.MarkAttachClass[cl.g] = uint16(c.R(1, 3))
			}
		}
		if len(t.MarkAttachClass) == 0 {
			t.MarkAttachClass = nil
		}
	}
	for i := 0; i < markSets; i++ {
		o := &LOpt{N: n}
		t.MarkGlyphSets = append(t.MarkGlyphSets, Set(o.gidSet(c, 4)))
	}
	return t
}

type gcl struct {
	g  glyph.ID
	cl uint16
}

func sortedClasses(t classdef.Table) []gcl {
	var res []gcl
	for g, cl := range t {
		res = append(res, gcl{g, cl})
	}
	sort.Slice(res, func(i, j int) bool { return res[i].g < res[j].g })
	return res
}
