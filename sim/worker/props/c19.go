package props

import (
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"
	"seehuhn.de/go/sfnt/opentype/markarray"

	"verif/sim/worker/core"
	"verif/sim/worker/snap"
)

func init() {
	register(&core.Prop{ID: "C19", Run: runC19, Budget: 300_000_000, HeapMax: 1 << 30, Gaps: []uint64{0, 3, 20, 150, 2000}})
}

// lookupLang describes the font the texts refer to, and generates lookup
// lists and texts.
type lookupLang struct {
	c     *core.C
	font  *sfnt.Font
	n     int
	name  []string // usable names: identifiers which select exactly this glyph
	runes [][]rune // usable runes for each glyph
}

var c19Words = []string{"a.alt", "f_i", "B.sc", "x", "y", "dx", "to", "first", "second", "mark", "base", "_", "..", "marks", "é", "GSUB1", "ж1", "ligs", "z9"}
var c19Odd = []string{"a-b", "1st", "a b", "class", "inputclass", "12", "a*", "q\"", "-", "7-9", "backtrackclass", "lookaheadclass", "a#b", "|", "a,b"}
var c19Runes = []rune("ABCDEFabcxyz019 -_.#,;:[]@/&='|>\"\\é←ﬁЖ")
var c19OddRunes = []rune{0, 1, '\n', '\r', '\t', 0x7f, 0x85, 0xa0, 0xad, 0x301, 0x200b, 0x2028, 0xd800, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0x10400, 0x1f600, 0x10ffff}

func identifier(s string) bool {
	for i, r := range s {
		if !(unicode.IsLetter(r) || r == '.' || r == '_' || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return s != ""
}

func newLang(r *core.Run) *lookupLang {
	c := r.C
	n := c.R(2, 14)
	if c.P(1, 12) {
		n = c.R(2, 300)
	}
	l := &lookupLang{c: c, n: n, font: &sfnt.Font{FamilyName: "Sim", UnitsPerEm: 1000}}

	names := make([]string, n)
	pattern := c.N(5)
	for i := range names {
		switch {
		case i == 0:
			names[i] = ".notdef"
		case i <= 26:
			names[i] = string(rune('A' + i - 1))
		default:
			names[i] = fmt.Sprintf("g%d", i)
		}
		switch pattern {
		case 1: // no names
			names[i] = ""
		case 2: // some missing
			if c.P(1, 3) {
				names[i] = ""
			}
		case 3: // unusual ones
			if c.P(1, 2) {
				names[i] = c19Words[c.N(len(c19Words))]
			}
		case 4: // impossible ones
			if c.P(1, 3) {
				names[i] = c19Odd[c.N(len(c19Odd))]
			} else if c.P(1, 3) {
				names[i] = c19Words[c.N(len(c19Words))]
			}
		}
	}
	r.Count([]string{"fonts with normal glyph names", "fonts without glyph names", "fonts with some glyph names missing", "fonts with unusual glyph names", "fonts with glyph names outside the language"}[pattern])
	switch c.N(3) {
	case 0:
		o := &glyf.Outlines{Glyphs: make(glyf.Glyphs, n), Widths: make([]funit.Int16, n), Names: names}
		if pattern == 1 && c.P(1, 2) {
			o.Names = nil
		}
		l.font.Outlines = o
	default:
		o := &cff.Outlines{FDSelect: func(glyph.ID) int { return 0 }}
		for i := range names {
			o.Glyphs = append(o.Glyphs, cff.NewGlyph(names[i], 500))
		}
		if pattern == 1 {
			o.ROS = &cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"}
			for i := range names {
				o.GIDToCID = append(o.GIDToCID, cid.CID(i))
			}
		}
		l.font.Outlines = o
	}
	count := map[string]int{}
	for _, s := range names {
		count[s]++
	}
	l.name = make([]string, n)
	for i, s := range names {
		kw := s == "class" || s == "inputclass" || s == "backtrackclass" || s == "lookaheadclass"
		if identifier(s) && count[s] == 1 && !kw {
			l.name[i] = s
		}
	}

	// character map
	l.runes = make([][]rune, n)
	m := cmap.Format12{}
	kind := c.W(5, 1, 1, 3)
	if kind != 1 && kind != 2 {
		pool := append([]rune{}, c19Runes...)
		if kind == 3 {
			pool = append(pool, c19OddRunes...)
			pool = append(pool, c19OddRunes...)
		}
		for i, k := 0, c.N(3*n); i < k; i++ {
			rn := pool[c.N(len(pool))]
			g := glyph.ID(1 + c.N(n-1))
			if _, dup := m[uint32(rn)]; dup {
				continue
			}
			if kind == 0 && i < 6 {
				rn = rune('A' + i)
				if i+1 >= n {
					break
				}
				g = glyph.ID(1 + i)
			}
			m[uint32(rn)] = g
			if rn != 0 && (rn < 0xd800 || rn > 0xdfff) {
				l.runes[g] = append(l.runes[g], rn)
			}
		}
	}
	r.Count([]string{"fonts with a plain character map", "fonts without character map", "fonts with an empty character map", "fonts with an unusual character map"}[kind])
	switch {
	case kind == 1:
		// no character map
	default:
		l.font.CMapTable = cmap.Table{}
		bmp := true
		f4 := cmap.Format4{}
		for rn, g := range m {
			if rn >= 0xffff {
				bmp = false
			} else {
				f4[uint16(rn)] = g
			}
		}
		if bmp {
			l.font.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 1}] = f4.Encode(0)
		} else {
			l.font.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 10}] = m.Encode(0)
		}
	}
	return l
}

func (l *lookupLang) gid() glyph.ID { return glyph.ID(l.c.N(l.n)) }

func (l *lookupLang) list(lo, hi int) []glyph.ID {
	k := l.c.R(lo, hi)
	var res []glyph.ID
	if k >= 2 && l.c.P(1, 4) {
		// consecutive glyphs, for ranges
		s := l.c.N(l.n)
		for i := 0; i < k && s+i < l.n; i++ {
			res = append(res, glyph.ID(s+i))
		}
		if len(res) >= lo {
			if l.c.P(1, 3) {
				for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
					res[i], res[j] = res[j], res[i]
				}
			}
			return res
		}
		res = nil
	}
	for i := 0; i < k; i++ {
		res = append(res, l.gid())
	}
	return res
}

// set draws a sorted list without duplicates.
func (l *lookupLang) set(lo, hi int) []glyph.ID {
	res := l.list(lo, hi)
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	k := 0
	for i := range res {
		if i == 0 || res[i] != res[i-1] {
			res[k] = res[i]
			k++
		}
	}
	return res[:k]
}

func covTable(gids []glyph.ID) coverage.Table {
	t := coverage.Table{}
	for i, g := range gids {
		t[g] = i
	}
	return t
}

func covSet(gids []glyph.ID) coverage.Set {
	s := coverage.Set{}
	for _, g := range gids {
		s[g] = true
	}
	return s
}

func (l *lookupLang) actions() []gtab.SeqLookup {
	var res []gtab.SeqLookup
	for i, k := 0, l.c.N(4); i < k; i++ {
		a := gtab.SeqLookup{SequenceIndex: uint16(l.c.N(4)), LookupListIndex: gtab.LookupIndex(l.c.N(5))}
		if l.c.P(1, 10) {
			a.SequenceIndex = uint16(l.c.N(65536))
			a.LookupListIndex = gtab.LookupIndex(l.c.N(65536))
		}
		res = append(res, a)
	}
	return res
}

func (l *lookupLang) coord() funit.Int16 {
	if l.c.P(1, 12) {
		return []funit.Int16{32767, -32768}[l.c.N(2)]
	}
	return funit.Int16(l.c.N(300) - 100)
}

func (l *lookupLang) value() *gtab.GposValueRecord {
	v := &gtab.GposValueRecord{}
	if l.c.P(1, 2) {
		v.XPlacement = l.coord()
	}
	if l.c.P(1, 3) {
		v.YPlacement = l.coord()
	}
	if l.c.P(1, 3) {
		v.XAdvance = l.coord()
	}
	if *v == (gtab.GposValueRecord{}) {
		return nil
	}
	return v
}

func (l *lookupLang) pair() *gtab.PairAdjust {
	p := &gtab.PairAdjust{First: l.value()}
	if l.c.P(1, 3) {
		p.Second = l.value()
	}
	return p
}

// classes draws a class table with k non-empty classes.
func (l *lookupLang) classes(k int) (classdef.Table, int) {
	t := classdef.Table{}
	cls := 0
	for i := 0; i < k; i++ {
		some := false
		for _, g := range l.set(1, 4) {
			if _, dup := t[g]; !dup {
				t[g] = uint16(cls + 1)
				some = true
			}
		}
		if some {
			cls++
		}
	}
	return t, cls
}

func (l *lookupLang) classSeq(lo, hi, k int) []uint16 {
	var res []uint16
	for i, m := 0, l.c.R(lo, hi); i < m; i++ {
		res = append(res, uint16(l.c.N(k+1)))
	}
	return res
}

func (l *lookupLang) sets(lo, hi int) []coverage.Set {
	var res []coverage.Set
	for i, m := 0, l.c.R(lo, hi); i < m; i++ {
		res = append(res, covSet(l.set(0, 4)))
	}
	return res
}

// lookup draws one lookup in the form the language can express.
func (l *lookupLang) lookup(gpos bool) *gtab.LookupTable {
	c := l.c
	t := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{}}
	for _, f := range []gtab.LookupFlags{gtab.IgnoreMarks, gtab.IgnoreLigatures, gtab.IgnoreBaseGlyphs} {
		if c.P(1, 5) {
			t.Meta.LookupFlags |= f
		}
	}
	subs := 1
	if c.P(1, 3) {
		subs += c.R(1, 2)
	}
	if gpos {
		typ := c.R(1, 4)
		t.Meta.LookupType = uint16(typ)
		for i := 0; i < subs; i++ {
			t.Subtables = append(t.Subtables, l.gposSub(typ))
		}
		return t
	}
	typ := c.R(1, 6)
	t.Meta.LookupType = uint16(typ)
	if typ < 5 {
		subs = 1
	}
	for i := 0; i < subs; i++ {
		t.Subtables = append(t.Subtables, l.gsubSub(typ))
	}
	return t
}

func (l *lookupLang) gsubSub(typ int) gtab.Subtable {
	c := l.c
	switch typ {
	case 1:
		from := l.set(1, 6)
		if c.P(1, 3) { // a few runs of consecutive glyphs
			from = from[:0]
			for g := c.N(l.n); g < l.n && len(from) < 12; g++ {
				if !c.P(1, 5) {
					from = append(from, glyph.ID(g))
				}
			}
			if len(from) == 0 {
				from = l.set(1, 6)
			}
		}
		if c.P(1, 2) {
			// constant offset
			lo, hi := int(from[0]), int(from[len(from)-1])
			d := c.R(-lo, l.n-1-hi)
			return &gtab.Gsub1_1{Cov: covSet(from), Delta: glyph.ID(uint16(d))}
		}
		to := make([]glyph.ID, len(from))
		same := true
		for i := range to {
			to[i] = l.gid()
			if i > 0 && c.P(2, 3) {
				// same step as the input, or a different one
				d := 1
				if c.P(1, 4) {
					d = []int{0, 2, 3, -1}[c.N(4)]
				}
				if t := int(to[i-1]) + d; t >= 0 && t < l.n {
					to[i] = glyph.ID(t)
				}
			}
			if to[i]-from[i] != to[0]-from[0] {
				same = false
			}
		}
		if same {
			return &gtab.Gsub1_1{Cov: covSet(from), Delta: to[0] - from[0]}
		}
		return &gtab.Gsub1_2{Cov: covTable(from), SubstituteGlyphIDs: to}
	case 2:
		s := &gtab.Gsub2_1{}
		from := l.set(1, 4)
		s.Cov = covTable(from)
		for range from {
			s.Repl = append(s.Repl, l.list(1, 5))
		}
		return s
	case 3:
		s := &gtab.Gsub3_1{}
		from := l.set(1, 4)
		s.Cov = covTable(from)
		for range from {
			s.Alternates = append(s.Alternates, l.set(0, 5))
		}
		return s
	case 4:
		s := &gtab.Gsub4_1{}
		from := l.set(1, 5)
		s.Cov = covTable(from)
		single := c.P(1, 4)
		for i := range from {
			var ligs []gtab.Ligature
			for j, k := 0, c.R(1, 3); j < k; j++ {
				lig := gtab.Ligature{In: l.list(0, 3), Out: l.gid()}
				if single {
					lig = gtab.Ligature{Out: glyph.ID((int(from[i]) + 1) % l.n)}
				}
				ligs = append(ligs, lig)
				if single {
					break
				}
			}
			s.Repl = append(s.Repl, ligs)
		}
		if single && c.P(1, 2) {
			s.Repl[0][0].In = l.list(1, 2)
		}
		return s
	case 5:
		switch c.N(3) {
		case 0:
			s := &gtab.SeqContext1{}
			from := l.set(1, 4)
			s.Cov = covTable(from)
			for range from {
				var rules []*gtab.SeqRule
				for j, k := 0, c.R(1, 3); j < k; j++ {
					rules = append(rules, &gtab.SeqRule{Input: l.list(0, 3), Actions: l.actions()})
				}
				s.Rules = append(s.Rules, rules)
			}
			return s
		case 1:
			s := &gtab.SeqContext2{Cov: covTable(l.set(0, 4))}
			k := 0
			s.Input, k = l.classes(c.N(4))
			s.Rules = make([][]*gtab.ClassSeqRule, k+1)
			for j, m := 0, c.R(1, 4); j < m; j++ {
				cls := c.N(k + 1)
				s.Rules[cls] = append(s.Rules[cls], &gtab.ClassSeqRule{Input: l.classSeq(0, 3, k), Actions: l.actions()})
			}
			return s
		default:
			return &gtab.SeqContext3{Input: l.sets(1, 3), Actions: l.actions()}
		}
	default:
		switch c.N(3) {
		case 0:
			s := &gtab.ChainedSeqContext1{}
			from := l.set(1, 4)
			s.Cov = covTable(from)
			for range from {
				var rules []*gtab.ChainedSeqRule
				for j, k := 0, c.R(1, 3); j < k; j++ {
					rules = append(rules, &gtab.ChainedSeqRule{Backtrack: l.list(0, 3), Input: l.list(0, 3), Lookahead: l.list(0, 3), Actions: l.actions()})
				}
				s.Rules = append(s.Rules, rules)
			}
			return s
		case 1:
			s := &gtab.ChainedSeqContext2{Cov: covTable(l.set(0, 4))}
			var ki, kb, kl int
			s.Input, ki = l.classes(c.N(4))
			s.Backtrack, kb = l.classes(c.N(3))
			s.Lookahead, kl = l.classes(c.N(3))
			s.Rules = make([][]*gtab.ChainedClassSeqRule, ki+1)
			for j, m := 0, c.R(1, 4); j < m; j++ {
				cls := c.N(ki + 1)
				s.Rules[cls] = append(s.Rules[cls], &gtab.ChainedClassSeqRule{
					Backtrack: l.classSeq(0, 3, kb), Input: l.classSeq(0, 3, ki), Lookahead: l.classSeq(0, 3, kl), Actions: l.actions()})
			}
			return s
		default:
			return &gtab.ChainedSeqContext3{Backtrack: l.sets(0, 3), Input: l.sets(1, 3), Lookahead: l.sets(0, 3), Actions: l.actions()}
		}
	}
}

func (l *lookupLang) gposSub(typ int) gtab.Subtable {
	c := l.c
	switch typ {
	case 1:
		if c.P(1, 2) {
			return &gtab.Gpos1_1{Cov: covTable(l.set(0, 5)), Adjust: l.value()}
		}
		from := l.set(1, 4)
		s := &gtab.Gpos1_2{Cov: covTable(from)}
		for range from {
			s.Adjust = append(s.Adjust, l.value())
		}
		return s
	case 2:
		if c.P(1, 2) {
			s := gtab.Gpos2_1{}
			for i, k := 0, c.R(1, 5); i < k; i++ {
				s[glyph.Pair{Left: l.gid(), Right: l.gid()}] = l.pair()
			}
			return s
		}
		s := &gtab.Gpos2_2{Cov: covSet(l.set(0, 5))}
		gap := func(t classdef.Table) {
			// class numbers without glyphs
			if c.P(1, 4) {
				for g := 0; g < l.n; g++ {
					if v, ok := t[glyph.ID(g)]; ok && v > 1 {
						t[glyph.ID(g)] = v + 1
					}
				}
			}
		}
		s.Class1, _ = l.classes(c.N(4))
		s.Class2, _ = l.classes(c.N(4))
		gap(s.Class1)
		gap(s.Class2)
		for i := 0; i < s.Class1.NumClasses(); i++ {
			var row []*gtab.PairAdjust
			for j := 0; j < s.Class2.NumClasses(); j++ {
				row = append(row, l.pair())
			}
			s.Adjust = append(s.Adjust, row)
		}
		return s
	case 3:
		from := l.set(1, 4)
		s := &gtab.Gpos3_1{Cov: covTable(from)}
		for range from {
			s.Records = append(s.Records, gtab.EntryExitRecord{
				Entry: anchor.Table{X: l.coord(), Y: l.coord()}, Exit: anchor.Table{X: l.coord(), Y: l.coord()}})
		}
		return s
	default:
		marks := l.set(0, 4)
		bases := l.set(0, 4)
		s := &gtab.Gpos4_1{MarkCov: covTable(marks), BaseCov: covTable(bases)}
		k := 0
		for range marks {
			cls := c.N(k + 1)
			if cls == k {
				k++
			}
			s.MarkArray = append(s.MarkArray, markarray.Record{Class: uint16(cls), Table: anchor.Table{X: l.coord(), Y: l.coord()}})
		}
		for range bases {
			var row []anchor.Table
			for j := 0; j < k; j++ {
				row = append(row, anchor.Table{X: l.coord(), Y: l.coord()})
			}
			s.BaseArray = append(s.BaseArray, row)
		}
		return s
	}
}

// writer produces one of the many texts for a lookup list.
type textWriter struct {
	*lookupLang
	b    strings.Builder
	last byte

	// an error to be planted
	plant   string
	skip    int
	planted bool
	at      int // the offset of the error
}

// site reports whether an error of the given kind is to be planted here.
func (w *textWriter) site(kind string) bool {
	if w.plant != kind || w.planted {
		return false
	}
	if w.skip > 0 {
		w.skip--
		return false
	}
	w.planted = true
	w.at = w.b.Len()
	return true
}

func (w *textWriter) put(s string) {
	if s != "" {
		w.b.WriteString(s)
		w.last = s[len(s)-1]
	}
}

// ws writes optional white space.
func (w *textWriter) ws() {
	switch w.c.W(6, 2, 1) {
	case 0:
		w.put(" ")
	case 1:
	case 2:
		w.put([]string{"\t", "  ", "\r", "\v \u00a0"}[w.c.N(4)])
	}
}

// tok writes a token; identifiers and numbers are kept apart.
func (w *textWriter) tok(s string) {
	w.ws()
	wordy := func(b byte) bool {
		return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_' || b == '.' || b >= 0x80
	}
	f := s[0]
	if wordy(w.last) && wordy(f) || w.last == '-' && (wordy(f) || f == '>') || w.last == '|' && f == '|' || w.last == '+' {
		w.put(" ")
	}
	w.put(s)
}

// eol writes an optional end of line.
func (w *textWriter) eol() {
	switch w.c.W(4, 2, 1) {
	case 1:
		w.put("\n")
	case 2:
		w.put([]string{" # comment\n", "#\n", " # -> \"|| GSUB1: \n", "#é\x01\n"}[w.c.N(4)])
	}
}

func (w *textWriter) int(x int) {
	s := strconv.Itoa(x)
	if x >= 0 && w.c.P(1, 6) {
		s = "+" + s
	}
	w.tok(s)
}

func (w *textWriter) quoted(gids []glyph.ID) string {
	var s strings.Builder
	s.WriteByte('"')
	for _, g := range gids {
		rr := w.runes[g]
		r := rr[w.c.N(len(rr))]
		switch {
		case r == '\n':
			s.WriteString(`\n`)
		case r == '\r' && w.c.P(1, 2):
			s.WriteString(`\r`)
		case r == '\t' && w.c.P(1, 2):
			s.WriteString(`\t`)
		case r == '"' || r == '\\':
			s.WriteByte('\\')
			s.WriteRune(r)
		case r != 'n' && r != 'r' && r != 't' && w.c.P(1, 12):
			s.WriteByte('\\')
			s.WriteRune(r)
		default:
			s.WriteRune(r)
		}
	}
	s.WriteByte('"')
	return s.String()
}

// one writes a single glyph.
func (w *textWriter) one(g glyph.ID) {
	if w.site("glyph ID") {
		w.tok(strconv.Itoa([]int{w.n, w.n + 1, w.n + w.c.N(1000), 65535, 65536, 65536 + w.c.N(w.n), 1 << 32, -1}[w.c.N(8)]))
		return
	} else if w.site("glyph name") {
		w.tok([]string{"Qqqq", "Qqqq.alt", "qqqq_qqqq", ".notdef.q"}[w.c.N(4)])
		return
	} else if w.site("unmapped") {
		w.tok([]string{"\"\ue123\"", "\"\U000e0f00\"", "\"\\\ue123\""}[w.c.N(3)])
		return
	}
	k := w.c.W(4, 3, 2)
	switch {
	case k == 0 && w.name[g] != "":
		w.tok(w.name[g])
	case k <= 1 && len(w.runes[g]) > 0:
		w.tok(w.quoted([]glyph.ID{g}))
	default:
		w.int(int(g))
	}
}

func (w *textWriter) glyphs(gids []glyph.ID) {
	for i := 0; i < len(gids); {
		// range?
		j := i + 1
		for j < len(gids) && gids[j] == gids[j-1]+1 {
			j++
		}
		if j == i+1 {
			for j < len(gids) && gids[j] == gids[j-1]-1 {
				j++
			}
		}
		if j-i >= 2 && w.c.P(2, 3) {
			j = i + w.c.R(2, j-i)
			w.one(gids[i])
			w.tok("-")
			w.one(gids[j-1])
			i = j
			continue
		}
		// string?
		j = i
		for j < len(gids) && len(w.runes[gids[j]]) > 0 {
			j++
		}
		if j-i >= 2 && w.c.P(1, 2) {
			j = i + w.c.R(2, j-i)
			w.tok(w.quoted(gids[i:j]))
			i = j
			continue
		}
		w.one(gids[i])
		i++
	}
}

// anyOrder writes a list of glyphs whose order and repetitions don't matter.
func (w *textWriter) anyOrder(gids []glyph.ID) {
	g := append([]glyph.ID(nil), gids...)
	if len(g) > 0 && w.c.P(1, 3) {
		g = append(g, g[w.c.N(len(g))])
	}
	if w.c.P(1, 3) {
		for i := len(g) - 1; i > 0; i-- {
			j := w.c.N(i + 1)
			g[i], g[j] = g[j], g[i]
		}
	}
	w.glyphs(g)
}

func (w *textWriter) set(gids []glyph.ID) {
	w.tok("[")
	w.anyOrder(gids)
	w.tok("]")
}

func (w *textWriter) acts(aa []gtab.SeqLookup) {
	w.tok("->")
	for _, a := range aa {
		x, y := int(a.LookupListIndex), int(a.SequenceIndex)
		if w.site("action") {
			bad := []int{65536, 65537 + w.c.N(1000), -1, 1 << 32}[w.c.N(4)]
			if w.c.P(1, 2) {
				x = bad
			} else {
				y = bad
			}
		}
		w.int(x)
		w.tok("@")
		w.int(y)
	}
}

func (w *textWriter) value(v *gtab.GposValueRecord) {
	if v == nil {
		w.tok([]string{"_", "_", "x+0", "dx 0"}[w.c.N(4)])
		return
	}
	parts := []string{"x", "y", "dx"}
	vals := []int{int(v.XPlacement), int(v.YPlacement), int(v.XAdvance)}
	if w.site("value") {
		vals[w.c.N(3)] = w.outOfRange()
	}
	order := [][3]int{{0, 1, 2}, {2, 1, 0}, {1, 0, 2}}[w.c.N(3)]
	for _, i := range order {
		if vals[i] == 0 && !w.c.P(1, 8) {
			continue
		}
		w.tok(parts[i])
		s := strconv.Itoa(vals[i])
		if vals[i] >= 0 {
			s = []string{"+", " "}[w.c.N(2)] + s
		}
		w.put(s)
	}
}

func (w *textWriter) pairAdj(p *gtab.PairAdjust) {
	w.value(p.First)
	if p.Second != nil || w.c.P(1, 8) {
		w.tok("&")
		w.value(p.Second)
	}
}

func (w *textWriter) xy(a anchor.Table) {
	x, y := int(a.X), int(a.Y)
	if w.site("value") {
		if w.c.P(1, 2) {
			x = w.outOfRange()
		} else {
			y = w.outOfRange()
		}
	}
	w.int(x)
	w.tok(",")
	w.int(y)
}

// outOfRange returns a number which is too large for 16 bits.
func (w *textWriter) outOfRange() int {
	return []int{32768, -32769, 40000, 65535, 65536, -65536, 70000, 1 << 31, 1<<32 + 5, -1 << 40}[w.c.N(10)]
}

func (w *textWriter) comma() {
	w.tok(",")
	w.eol()
}

func (w *textWriter) classDefs(kind string, t classdef.Table) []string {
	gg := t.Glyphs()
	names := make([]string, len(gg))
	style := w.c.N(3)
	for i := 1; i < len(gg); i++ {
		switch style {
		case 0:
			names[i] = fmt.Sprintf("c%d", i)
		case 1:
			names[i] = fmt.Sprintf("c%d", len(gg)-i)
		case 2:
			names[i] = []string{"alpha", "x", "A", "_", "class", "beta.", "ж", "to"}[i%8] + strings.Repeat("_", i/8)
		}
		w.tok(kind)
		w.tok(":")
		w.tok(names[i])
		w.tok(":")
		if !w.c.P(1, 4) {
			w.tok("=")
		}
		w.set(gg[i])
		w.eol()
	}
	return names
}

func (w *textWriter) classList(names []string, cc []uint16) {
	for _, x := range cc {
		w.tok(":")
		if w.site("class") {
			w.tok("nosuchclass")
		} else if x > 0 {
			w.tok(names[x])
		}
		w.tok(":")
	}
}

func reversed[T any](x []T) []T {
	res := make([]T, len(x))
	for i := range x {
		res[len(x)-1-i] = x[i]
	}
	return res
}

func (w *textWriter) covered(t coverage.Set) {
	w.set(t.Glyphs())
}

func (w *textWriter) lookup(gpos bool, t *gtab.LookupTable) {
	tag := "GSUB"
	if gpos {
		tag = "GPOS"
	}
	w.put(tag + strconv.Itoa(int(t.Meta.LookupType)))
	if !w.c.P(1, 6) {
		w.tok(":")
	}
	w.eol()
	var fl []string
	if t.Meta.LookupFlags&gtab.IgnoreMarks != 0 {
		fl = append(fl, "marks")
	}
	if t.Meta.LookupFlags&gtab.IgnoreLigatures != 0 {
		fl = append(fl, "ligs")
	}
	if t.Meta.LookupFlags&gtab.IgnoreBaseGlyphs != 0 {
		fl = append(fl, "base")
	}
	if len(fl) > 1 && w.c.P(1, 2) {
		fl[0], fl[len(fl)-1] = fl[len(fl)-1], fl[0]
	}
	if len(fl) > 0 && w.c.P(1, 6) {
		fl = append(fl, fl[0])
	}
	for _, f := range fl {
		w.tok("-" + f)
	}
	w.eol()
	for i, s := range t.Subtables {
		if i > 0 {
			w.tok("||")
			w.eol()
		}
		w.subtable(s)
	}
}

func (w *textWriter) subtable(s gtab.Subtable) {
	c := w.c
	first := true
	sep := func() {
		if !first {
			w.comma()
		}
		first = false
	}
	single := func(from, to []glyph.ID) {
		for i := 0; i < len(from); {
			j := i + c.R(1, min(4, len(from)-i))
			sep()
			w.glyphs(from[i:j])
			w.tok("->")
			w.glyphs(to[i:j])
			i = j
		}
	}
	switch s := s.(type) {
	case *gtab.Gsub1_1:
		from := s.Cov.Glyphs()
		var to []glyph.ID
		for _, g := range from {
			to = append(to, g+s.Delta)
		}
		single(from, to)
	case *gtab.Gsub1_2:
		single(s.Cov.Glyphs(), s.SubstituteGlyphIDs)
	case *gtab.Gsub2_1:
		for i, g := range s.Cov.Glyphs() {
			sep()
			w.one(g)
			w.tok("->")
			w.glyphs(s.Repl[i])
		}
	case *gtab.Gsub3_1:
		for i, g := range s.Cov.Glyphs() {
			sep()
			w.one(g)
			w.tok("->")
			w.set(s.Alternates[i])
		}
	case *gtab.Gsub4_1:
		for i, g := range s.Cov.Glyphs() {
			for _, lig := range s.Repl[i] {
				sep()
				w.glyphs(append([]glyph.ID{g}, lig.In...))
				w.tok("->")
				w.one(lig.Out)
			}
		}
	case *gtab.SeqContext1:
		for i, g := range s.Cov.Glyphs() {
			for _, rule := range s.Rules[i] {
				sep()
				w.glyphs(append([]glyph.ID{g}, rule.Input...))
				w.acts(rule.Actions)
			}
		}
	case *gtab.SeqContext2:
		names := w.classDefs("class", s.Input)
		w.tok("/")
		w.anyOrder(s.Cov.Glyphs())
		w.tok("/")
		for cls, rules := range s.Rules {
			for _, rule := range rules {
				sep()
				w.classList(names, append([]uint16{uint16(cls)}, rule.Input...))
				w.acts(rule.Actions)
			}
		}
	case *gtab.SeqContext3:
		for _, t := range s.Input {
			w.covered(t)
		}
		w.acts(s.Actions)
	case *gtab.ChainedSeqContext1:
		for i, g := range s.Cov.Glyphs() {
			for _, rule := range s.Rules[i] {
				sep()
				w.glyphs(reversed(rule.Backtrack))
				w.tok("|")
				w.glyphs(append([]glyph.ID{g}, rule.Input...))
				w.tok("|")
				w.glyphs(rule.Lookahead)
				w.acts(rule.Actions)
			}
		}
	case *gtab.ChainedSeqContext2:
		in := w.classDefs("inputclass", s.Input)
		bt := w.classDefs("backtrackclass", s.Backtrack)
		la := w.classDefs("lookaheadclass", s.Lookahead)
		w.tok("/")
		w.anyOrder(s.Cov.Glyphs())
		w.tok("/")
		for cls, rules := range s.Rules {
			for _, rule := range rules {
				sep()
				w.classList(bt, reversed(rule.Backtrack))
				w.tok("|")
				w.classList(in, append([]uint16{uint16(cls)}, rule.Input...))
				w.tok("|")
				w.classList(la, rule.Lookahead)
				w.acts(rule.Actions)
			}
		}
	case *gtab.ChainedSeqContext3:
		for _, t := range reversed(s.Backtrack) {
			w.covered(t)
		}
		w.tok("|")
		for _, t := range s.Input {
			w.covered(t)
		}
		w.tok("|")
		for _, t := range s.Lookahead {
			w.covered(t)
		}
		w.acts(s.Actions)
	case *gtab.Gpos1_1:
		w.set(s.Cov.Glyphs())
		w.tok("->")
		w.value(s.Adjust)
	case *gtab.Gpos1_2:
		for i, g := range s.Cov.Glyphs() {
			sep()
			w.one(g)
			w.tok("->")
			w.value(s.Adjust[i])
		}
	case gtab.Gpos2_1:
		var keys []glyph.Pair
		for k := range s {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			return keys[i].Left < keys[j].Left || keys[i].Left == keys[j].Left && keys[i].Right < keys[j].Right
		})
		for _, k := range keys {
			sep()
			w.glyphs([]glyph.ID{k.Left, k.Right})
			w.tok("->")
			w.pairAdj(s[k])
		}
	case *gtab.Gpos2_2:
		w.tok("/")
		w.anyOrder(s.Cov.Glyphs())
		w.tok("/")
		w.eol()
		for k, t := range []classdef.Table{s.Class1, s.Class2} {
			w.tok([]string{"first", "second"}[k])
			for i, gg := range t.Glyphs() {
				if i == 0 {
					continue
				}
				if i > 1 {
					w.tok(",")
				}
				// repetitions are not allowed here
				w.glyphs(gg)
			}
			w.tok(";")
			w.eol()
		}
		for i, row := range s.Adjust {
			for j, p := range row {
				if j > 0 {
					w.tok(",")
				}
				w.pairAdj(p)
			}
			if i < len(s.Adjust)-1 {
				w.tok([]string{",", ";"}[c.N(2)])
				w.eol()
			} else if c.P(1, 2) {
				w.tok(";")
			}
		}
	case *gtab.Gpos3_1:
		for i, g := range s.Cov.Glyphs() {
			if i > 0 {
				w.tok(";")
				w.eol()
			}
			w.one(g)
			w.tok(":")
			w.xy(s.Records[i].Entry)
			w.tok("to")
			w.xy(s.Records[i].Exit)
		}
	case *gtab.Gpos4_1:
		for i, g := range s.MarkCov.Glyphs() {
			w.tok("mark")
			w.one(g)
			w.tok(":")
			w.int(int(s.MarkArray[i].Class))
			w.tok("@")
			w.xy(s.MarkArray[i].Table)
			w.tok(";")
			w.eol()
		}
		for i, g := range s.BaseCov.Glyphs() {
			w.tok("base")
			w.one(g)
			w.tok(":")
			for j, a := range s.BaseArray[i] {
				if j > 0 && c.P(1, 3) {
					w.tok(",")
				}
				w.tok("@")
				w.xy(a)
			}
			w.tok(";")
			w.eol()
		}
	default:
		core.Harness("no text for %T", s)
	}
}

// text writes a description of the list.
func (l *lookupLang) text(gpos bool, ll gtab.LookupList) string {
	return l.write(&textWriter{lookupLang: l}, gpos, ll)
}

// wrong returns a text with exactly one error, and the number of the line
// which contains the error.
func (l *lookupLang) wrong(gpos bool, ll gtab.LookupList) (text, kind string, line int) {
	c := l.c
	kind = []string{"glyph ID", "glyph name", "unmapped", "action", "value", "class", "character"}[c.N(7)]
	w := &textWriter{lookupLang: l, plant: kind}
	if c.P(2, 3) {
		w.skip = c.N(8)
	}
	text = l.write(w, gpos, ll)
	if w.planted {
		return text, kind, strings.Count(text[:w.at], "\n") + 1
	}

	// an unexpected character at the end of a line
	var ends []int
	start := 0
	for i, r := range text {
		if r != '\n' {
			continue
		}
		s := text[start:i]
		if strings.TrimSpace(s) != "" && !strings.Contains(s, "#") {
			ends = append(ends, i)
		}
		start = i + 1
	}
	if len(ends) == 0 {
		return "", "", 0
	}
	at := ends[c.N(len(ends))]
	bad := []string{" $", " %", " ~", " (", " {", " '", " ^", " \u2603", " \"", " \"A", " \"A\\\""}[c.N(11)]
	line = strings.Count(text[:at], "\n") + 1
	return text[:at] + bad + text[at:], "character", line
}

func (l *lookupLang) write(w *textWriter, gpos bool, ll gtab.LookupList) string {
	for i := 0; i < l.c.N(3); i++ {
		w.put("\n")
	}
	for _, t := range ll {
		w.lookup(gpos, t)
		w.put("\n")
		if l.c.P(1, 6) {
			w.put([]string{"\n", ";", " ; ;\n\n", "# done\n"}[l.c.N(4)])
		}
	}
	return w.b.String()
}

var lineRx = regexp.MustCompile(`^(\d+):`)

// parse runs the parser under the simulated scheduler and checks the
// conditions which hold for all inputs.
func (l *lookupLang) parse(r *core.Run, what, text string) (ll gtab.LookupList, err error, ok bool) {
	ll, err, _, ok = l.parseLine(r, what, text)
	return
}

func (l *lookupLang) parseLine(r *core.Run, what, text string) (ll gtab.LookupList, err error, line int, ok bool) {
	before := runtime.SimIdle()
	runtime.SimSetBudget(runtime.SimSteps()+20_000_000+uint64(len(text))*20_000, 1<<30)
	ok = r.Guard(what+"/Parse", func() { ll, err = builder.Parse(l.font, text) })
	if !ok {
		r.Viol.Msg += fmt.Sprintf(" [text %s]", quote(text))
		return
	}
	if n := runtime.SimIdle(); n > before {
		r.Violate("leak/"+what, "%d goroutines left running after Parse returned (error %v) [text %s]", n-before, err, quote(text))
		return nil, nil, 0, false
	}
	if err != nil {
		r.Count("texts rejected")
		m := lineRx.FindStringSubmatch(err.Error())
		if m != nil {
			line, _ = strconv.Atoi(m[1])
		}
		lines := strings.Count(text, "\n") + 1
		if line < 1 || line > lines {
			r.Violate("no-line-number/"+what, "error %q does not carry the number of a line of the text (1..%d) [text %s]", err, lines, quote(text))
			return nil, nil, 0, false
		}
	} else {
		r.Count("texts accepted")
	}
	return ll, err, line, true
}

func quote(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%q...", s[:400])
	}
	return fmt.Sprintf("%q", s)
}

func kinds(t *gtab.LookupTable) string {
	var s []string
	for _, sub := range t.Subtables {
		k := strings.TrimPrefix(fmt.Sprintf("%T", sub), "*gtab.")
		k = strings.TrimPrefix(k, "gtab.")
		if len(s) == 0 || s[len(s)-1] != k {
			s = append(s, k)
		}
	}
	sort.Strings(s)
	return strings.Join(s, "+")
}

// explain describes the list in text form.
func (l *lookupLang) explain(gpos bool, ll gtab.LookupList) string {
	f := l.font.Clone()
	info := &gtab.Info{LookupList: ll}
	if gpos {
		f.Gpos = info
		return strings.Join(builder.ExplainGpos(f), "\n")
	}
	f.Gsub = info
	return builder.ExplainGsub(f)
}

// roundTrip checks Parse(Explain(ll)) == ll.
func (l *lookupLang) roundTrip(r *core.Run, gpos bool, ll gtab.LookupList, what string) bool {
	for pass := 0; pass < 2; pass++ {
		lists := []gtab.LookupList{}
		if pass == 0 {
			// one at a time, to identify the culprit
			for i := range ll {
				lists = append(lists, ll[i:i+1])
			}
		} else if len(ll) > 1 {
			lists = append(lists, ll)
		}
		for _, part := range lists {
			kind := "list"
			if len(part) == 1 {
				kind = kinds(part[0])
			}
			var text string
			runtime.SimSetBudget(runtime.SimSteps()+200_000_000, 1<<30)
			if !r.Guard("Explain/"+kind, func() { text = l.explain(gpos, part) }) {
				return false
			}
			back, err, ok := l.parse(r, "explained", text)
			if !ok {
				return false
			}
			if err != nil {
				r.Violate("explanation-rejected/"+what+"/"+kind, "the description of a lookup list (%s) is rejected: %v [text %s]", kind, err, quote(text))
				return false
			}
			if d := snap.Diff(part, back); d != "" {
				r.Violate("explanation-differs/"+what+"/"+kind, "parsing the description of a lookup list (%s) gives a different list: %s [text %s]", kind, d, quote(text))
				return false
			}
			r.Count("round trip " + kind)
		}
	}
	return true
}

var soup = []string{"GSUB1", "GSUB2", "GSUB3", "GSUB4", "GSUB5", "GSUB6", "GPOS1", "GPOS2", "GPOS3", "GPOS4", "GPOS7", "A", "B", "C", "D", ".notdef", "\"AB\"", "\"\"", "\"A", "\"\\\"", "\"\\", "\"zz~\"", "1", "2", "-1", "-0", "+", "99999", "99999999999999999999", "65535", "->", "-", "--", ">", ":", "::", ",", ";", "|", "||", "/", "//", "[", "]", "@", "&", "=", "_", "x", "y", "dx", "dy", "to", "first", "second", "mark", "base", "class", "inputclass", "backtrackclass", "lookaheadclass", "marks", "ligs", "rtl", "\n", "\n\n", "#", "# c\n", "\x00", "\xff", "\u2028", "é", "~", "(", "$", "'", "\r", "x+5", "0@1", "1@0", ":c1:"}

var tokRx = regexp.MustCompile(`"(\\.|[^"\n])*"|[\pL\d._]+|->|\|\||\s+|(?s:.)`)

// mutate changes a few tokens of a text.
func (l *lookupLang) mutate(text string) string {
	c := l.c
	toks := tokRx.FindAllString(text, -1)
	for i, k := 0, c.R(1, 3); i < k; i++ {
		if len(toks) == 0 {
			toks = append(toks, "A")
		}
		p := c.N(len(toks))
		switch c.N(7) {
		case 0:
			toks = append(toks[:p:p], toks[p+1:]...)
		case 1:
			toks[p] = soup[c.N(len(soup))]
		case 2:
			toks = append(toks[:p:p], append([]string{soup[c.N(len(soup))]}, toks[p:]...)...)
		case 3:
			q := c.N(len(toks))
			toks[p], toks[q] = toks[q], toks[p]
		case 4:
			toks = append(toks[:p:p], append([]string{toks[p]}, toks[p:]...)...)
		case 5:
			toks = toks[:p]
		case 6:
			if s := toks[p]; len(s) > 0 {
				q := c.N(len(s))
				toks[p] = s[:q] + string([]byte{byte(c.N(256))}) + s[q+c.N(2):]
			}
		}
	}
	return strings.Join(toks, "")
}

func runC19(r *core.Run) {
	c := r.C
	mode := c.W(4, 4, 4, 1, 2)
	l := newLang(r)
	gpos := c.P(1, 2)
	var ll gtab.LookupList
	k := 1
	if c.P(1, 3) {
		k += c.N(4)
	}
	for i := 0; i < k; i++ {
		ll = append(ll, l.lookup(gpos))
	}
	what := "GSUB"
	if gpos {
		what = "GPOS"
	}
	for _, t := range ll {
		r.Logf("%s%d %s flags=%d", what, t.Meta.LookupType, kinds(t), t.Meta.LookupFlags)
	}
	switch mode {
	case 0: // describe and parse
		l.roundTrip(r, gpos, ll, "generated")
		r.NonTrivial = true
	case 1: // parse a generated text
		for _, t := range append(ll[:len(ll):len(ll)], nil) {
			part := ll
			kind := "list"
			if t != nil {
				part = gtab.LookupList{t}
				kind = kinds(t)
			}
			text := l.text(gpos, part)
			r.Logf("text: %s", text)
			got, err, ok := l.parse(r, "generated", text)
			if !ok {
				return
			}
			if err != nil {
				r.Violate("text-rejected/"+kind, "a valid text (%s) is rejected: %v [text %s]", kind, err, quote(text))
				return
			}
			if d := snap.Diff(part, got); d != "" {
				r.Violate("text-misread/"+kind, "a text (%s) is not parsed as written: %s [text %s]", kind, d, quote(text))
				return
			}
			r.Count("parsed text " + kind)
			if len(ll) == 1 {
				break
			}
		}
		r.NonTrivial = true
	case 4: // texts with one error
		for i, k := 0, c.R(1, 4); i < k; i++ {
			text, kind, line := l.wrong(gpos, ll)
			if text == "" {
				continue
			}
			r.Logf("text with an error (%s): %s", kind, text)
			got, err, at, ok := l.parseLine(r, "wrong", text)
			if !ok {
				return
			}
			r.NonTrivial = true
			if err == nil {
				r.Violate("wrong-accepted/"+kind, "a text with an error (%s) in line %d is accepted: %d lookups [text %s]", kind, line, len(got), quote(text))
				return
			}
			r.Logf("error %v", err)
			if at < line || kind == "character" && at != line {
				r.Violate("wrong-line/"+kind, "a text with an error (%s) in line %d is rejected with %q [text %s]", kind, line, err, quote(text))
				return
			}
			r.Count("texts with one error: " + kind)
		}
	case 2, 3: // arbitrary texts
		for i, k := 0, c.R(1, 6); i < k; i++ {
			var text string
			if mode == 2 {
				text = l.mutate(l.text(gpos, ll))
			} else if c.P(1, 3) {
				text = string(c.Bytes(c.Size(60)))
			} else {
				var s []string
				for j, m := 0, c.R(1, 14); j < m; j++ {
					s = append(s, soup[c.N(len(soup))])
				}
				text = strings.Join(s, []string{" ", ""}[c.N(2)])
			}
			r.Logf("text: %s", text)
			got, err, ok := l.parse(r, "arbitrary", text)
			if !ok {
				return
			}
			r.NonTrivial = true
			r.Logf("%d lookups, error %v", len(got), err)
			if err != nil || len(got) == 0 {
				continue
			}
			// the list can be expressed, so its description must be faithful
			tag, mixed := "", false
			for _, m := range tagRx.FindAllString(text, -1) {
				if tag != "" && m != tag {
					mixed = true
				}
				tag = m
			}
			isGpos, isGsub := false, false
			for _, t := range got {
				for _, s := range t.Subtables {
					if strings.Contains(fmt.Sprintf("%T", s), "Gpos") {
						isGpos = true
					} else {
						isGsub = true
					}
				}
			}
			if mixed && isGpos && isGsub || !isGpos && !isGsub {
				continue
			}
			if !l.roundTrip(r, isGpos, got, "parsed") {
				return
			}
		}
	}
}

var tagRx = regexp.MustCompile(`GSUB|GPOS`)
