package props

import (
	"bytes"
	"fmt"
	"sort"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"verif/sim/worker/core"
	"verif/sim/worker/gen"
	"verif/sim/worker/snap"
)

func init() {
	register(&core.Prop{ID: "C07", Run: runC07, Budget: 600_000_000, HeapMax: 3 << 30})
}

// c07Tables returns a function which makes identical, unrelated copies of a
// set of tables.
type c07Tables struct {
	gsub, gpos *gtab.Info
	gdef       *gdef.Table
}

func c07Source(r *core.Run, n, alpha int) func() *c07Tables {
	c := r.C
	mode := c.W(2, 4, 4) // well-formed, wild, damaged bytes
	gdefMode := c.W(3, 3, 2, 2)
	maxAct := []int{3, 3, 12, 100}[c.N(4)]
	long := []int{0, 0, 8, 70}[c.N(4)]
	sets := c.N(3)
	gsubTypes, gposTypes := gen.GsubTypes, gen.GposTypes
	switch c.N(5) { // concentrate on some lookup types
	case 1:
		gsubTypes, gposTypes = []int{2, 4, 5, 6}, []int{4, 6, 7, 8}
	case 2:
		gsubTypes, gposTypes = []int{5, 6, 1}, []int{7, 8, 1}
	case 3:
		gsubTypes, gposTypes = []int{4, 5}, []int{2, 4, 6}
	}
	maxL := c.R(1, 6)
	tight := c.P(2, 5)
	flags := gen.AllFlags
	if tight { // lookups which interact, few errors
		if c.P(2, 3) {
			mode, gdefMode = 0, 1
		}
		gsubTypes = [][]int{{4, 5, 6, 2}, {5, 6, 4}, {6, 5, 4, 1}, {5, 4, 2}}[c.N(4)]
		gposTypes = []int{7, 8, 1, 2}
		maxL = c.R(2, 8)
		alpha = min(alpha, 4)
		sets = c.R(0, 3)
		switch c.N(4) {
		case 0:
			flags = []gtab.LookupFlags{gtab.IgnoreMarks}
		case 1:
			flags, sets = []gtab.LookupFlags{gtab.UseMarkFilteringSet}, c.R(2, 3)
		case 2:
			flags = []gtab.LookupFlags{gtab.IgnoreMarks, gtab.IgnoreLigatures, 0x0100}
		}
		r.Count("tables: interacting lookups")
	}
	seed := c.U(1 << 60)
	r.Logf("tables: tight=%v mode=%d gdef=%d n=%d alpha=%d maxAct=%d long=%d lookups<=%d seed=%x", tight, mode, gdefMode, n, alpha, maxAct, long, maxL, seed)
	r.Count([]string{"tables: well-formed", "tables: wild", "tables: damaged bytes"}[mode])

	build := func() *c07Tables {
		c := core.NewC(seed)
		t := &c07Tables{}
		o := &gen.LOpt{N: n, Alpha: alpha, Types: gsubTypes, Max: maxL, Flags: flags, MarkSets: sets, MaxAct: maxAct, Wild: mode == 1, Long: long, Tight: tight}
		if gdefMode == 0 {
			o.MarkSets = 0
		}
		t.gsub = gen.Info(c, o.LookupList(c), gen.GsubTags, 6, true, "liga")
		p := *o
		p.Gpos, p.Types = true, gposTypes
		t.gpos = gen.Info(c, p.LookupList(c), gen.GposTags, 6, true, "kern")
		switch gdefMode {
		case 1, 3:
			t.gdef = gen.Gdef(c, n, sets)
			if tight {
				for g := 1; g <= alpha; g++ {
					if c.P(1, 2) {
						t.gdef.GlyphClass[glyph.ID(g)] = gdef.GlyphClassMark
					}
				}
			}
		case 2:
			t.gdef = gen.Gdef(c, n, sets)
			wildGdef(c, t.gdef, o)
		}
		return t
	}
	if mode != 2 && gdefMode != 3 {
		return build
	}

	// damaged bytes: find damage the readers accept
	base := build()
	var gsubData, gposData, gdefData []byte
	enc := func(f func() []byte) []byte {
		var data []byte
		v, _ := core.Catch(func() { data = f() })
		if v != nil {
			r.Count("tables: cannot be encoded")
			return nil
		}
		return data
	}
	try := func(what string, data []byte, read func([]byte) error) []byte {
		if data == nil {
			return nil
		}
		for i := 0; i < 6; i++ {
			bad, kinds := gen.Corrupt(c, data, c.R(1, 4))
			var err error
			v, where := core.Catch(func() { err = read(bad) })
			if v != nil { // decoders are judged by C02
				r.Count("damage: " + what + " reader panics in " + where)
				continue
			}
			if err != nil {
				r.Count("damage: " + what + " rejected")
				continue
			}
			r.Count("damage: " + what + " accepted")
			for _, k := range kinds {
				r.Count("fault: " + k)
			}
			return bad
		}
		return data
	}
	gtabErr := func(tp gtab.Type) func([]byte) error {
		return func(b []byte) error {
			_, err := gtab.Read(bytes.NewReader(b), tp)
			return err
		}
	}
	if mode == 2 {
		gsubData = try("GSUB", enc(base.gsub.Encode), gtabErr(gtab.TypeGsub))
		gposData = try("GPOS", enc(base.gpos.Encode), gtabErr(gtab.TypeGpos))
	}
	if gdefMode == 3 {
		gdefData = try("GDEF", enc(base.gdef.Encode), func(b []byte) error {
			_, err := gdef.Read(bytes.NewReader(b))
			return err
		})
	}
	return func() *c07Tables {
		t := build()
		var err error
		// Data that was accepted once must be accepted again.  (Undamaged
		// tables that the reader rejects are not this property's business.)
		if mode == 2 {
			if gsubData != nil {
				if info, e := gtab.Read(bytes.NewReader(gsubData), gtab.TypeGsub); e == nil {
					t.gsub = info
				}
			}
			if gposData != nil {
				if info, e := gtab.Read(bytes.NewReader(gposData), gtab.TypeGpos); e == nil {
					t.gpos = info
				}
			}
			dropUnimplemented(t.gpos)
		}
		if gdefData != nil {
			t.gdef, err = gdef.Read(bytes.NewReader(gdefData))
			if err != nil {
				t.gdef = nil
			}
		}
		return t
	}
}

// wildGdef turns a GDEF table into one with missing parts and odd classes.
func wildGdef(c *core.C, t *gdef.Table, o *gen.LOpt) {
	if c.P(1, 4) {
		t.GlyphClass = nil
	}
	if c.P(1, 4) {
		t.GlyphClass = classdef.Table{}
	}
	for i, k := 0, c.N(4); i < k && t.GlyphClass != nil; i++ {
		t.GlyphClass[o.GID(c)] = uint16(c.R(1, 9))
	}
	if c.P(1, 3) {
		t.MarkAttachClass = nil
	} else if c.P(1, 2) {
		t.MarkAttachClass = classdef.Table{o.GID(c): uint16(c.R(1, 600))}
	}
	if c.P(1, 3) {
		t.MarkGlyphSets = nil
	} else if c.P(1, 3) && len(t.MarkGlyphSets) > 0 {
		t.MarkGlyphSets[c.N(len(t.MarkGlyphSets))] = nil
	}
}

// dropUnimplemented removes what the library declares unimplemented: vertical
// advances, device and variation offsets, and GPOS type 5.
func dropUnimplemented(info *gtab.Info) {
	if info == nil {
		return
	}
	fix := func(v *gtab.GposValueRecord) {
		if v != nil {
			v.YAdvance, v.XPlacementDevOffs, v.YPlacementDevOffs, v.XAdvanceDevOffs, v.YAdvanceDevOffs = 0, 0, 0, 0, 0
		}
	}
	for _, l := range info.LookupList {
		var ss []gtab.Subtable
		for _, s := range l.Subtables {
			switch s := s.(type) {
			case *gtab.Gpos5_1:
				continue
			case *gtab.Gpos1_1:
				fix(s.Adjust)
			case *gtab.Gpos1_2:
				for _, v := range s.Adjust {
					fix(v)
				}
			case gtab.Gpos2_1:
				for _, a := range s {
					fix(a.First)
					fix(a.Second)
				}
			case *gtab.Gpos2_2:
				for _, row := range s.Adjust {
					for _, a := range row {
						fix(a.First)
						fix(a.Second)
					}
				}
			}
			ss = append(ss, s)
		}
		l.Subtables = ss
	}
}

// maxGrow is the largest number of glyphs a multiple substitution can add.
func maxGrow(ll gtab.LookupList) int {
	g := 0
	for _, l := range ll {
		for _, s := range l.Subtables {
			if m, ok := s.(*gtab.Gsub2_1); ok {
				for _, repl := range m.Repl {
					g = max(g, len(repl)-1)
				}
			}
		}
	}
	return g
}

func runes(seq []glyph.Info) []rune {
	var rr []rune
	for _, g := range seq {
		rr = append(rr, g.Text...)
	}
	sort.Slice(rr, func(i, j int) bool { return rr[i] < rr[j] })
	return rr
}

func sameRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func showSeq(seq []glyph.Info) string {
	s := ""
	for i, g := range seq {
		if i > 24 {
			return s + "..."
		}
		s += fmt.Sprintf("%d", g.GID)
		if len(g.Text) > 0 {
			s += fmt.Sprintf("%q", string(g.Text))
		}
		if g.XOffset != 0 || g.YOffset != 0 || g.Advance != 0 {
			s += fmt.Sprintf("(%d,%d,%d)", g.XOffset, g.YOffset, g.Advance)
		}
		s += " "
	}
	return fmt.Sprintf("[%s](len %d)", s, len(seq))
}

// c07Seq draws a glyph sequence.  All characters are different.
func c07Seq(c *core.C, n, alpha int) []glyph.Info {
	var k int
	switch c.W(5, 3, 1) {
	case 0:
		k = c.R(0, 10)
	case 1:
		k = c.R(0, 40)
	default:
		k = c.R(0, 200)
	}
	style := c.N(4)
	same := glyph.ID(c.N(max(1, alpha+1)))
	next := rune('A')
	seq := make([]glyph.Info, 0, k+c.N(4))
	for i := 0; i < k; i++ {
		var gid glyph.ID
		switch {
		case style == 3 && !c.P(1, 8):
			gid = same
		case style == 2 && c.P(1, 3):
			gid = glyph.ID(c.N(65536))
		case style == 1:
			gid = glyph.ID(c.N(n))
		default:
			gid = glyph.ID(c.N(alpha + 1))
		}
		g := glyph.Info{GID: gid}
		for j, m := 0, c.W(1, 6, 1)+0; j < m; j++ {
			g.Text = append(g.Text, next)
			next++
		}
		if c.P(1, 6) {
			g.Advance, g.XOffset, g.YOffset = funit.Int16(c.N(1000)), funit.Int16(c.N(100)), funit.Int16(c.N(100))
		}
		seq = append(seq, g)
	}
	return seq
}

// shareText moves the texts of the glyphs into one array.
func shareText(seq []glyph.Info) {
	var all []rune
	for _, g := range seq {
		all = append(all, g.Text...)
	}
	pos := 0
	for i := range seq {
		if n := len(seq[i].Text); n > 0 {
			seq[i].Text = all[pos : pos+n]
			pos += n
		}
	}
}

func runC07(r *core.Run) {
	c := r.C
	if c.W(3, 1) == 1 {
		c07Layout(r)
		return
	}
	alpha := c.R(1, 8)
	n := alpha + 1 + c.N(30)
	mk := c07Source(r, n, alpha)
	gpos := c.P(1, 3)
	t := mk()
	pickInfo := func(t *c07Tables) *gtab.Info {
		if gpos {
			return t.gpos
		}
		return t.gsub
	}
	info := pickInfo(t)
	ll := info.LookupList

	// the lookups to apply
	var lookups []gtab.LookupIndex
	switch c.N(3) {
	case 0:
		lookups = gen.LookupSeq(len(ll))
	case 1:
		for i, k := 0, c.R(0, 4); i < k; i++ {
			lookups = append(lookups, gtab.LookupIndex(c.N(len(ll)+1)))
			if c.P(1, 8) {
				lookups[i] = gtab.LookupIndex(c.N(65536))
			}
		}
	case 2:
		features := map[string]bool{}
		for _, f := range info.FeatureList {
			features[f.Tag] = !c.P(1, 4)
		}
		lang := language.MustParse(c16Langs[c.N(len(c16Langs))])
		r.Guard("FindLookups", func() { lookups = info.FindLookups(lang, features) })
	}
	grow := 0
	if !gpos {
		grow = maxGrow(ll)
	}
	r.Logf("gpos=%v lookups=%v grow=%d", gpos, lookups, grow)
	stages := [][]gtab.LookupIndex{lookups}
	if grow > 0 {
		stages = nil
		for _, l := range lookups {
			stages = append(stages, []gtab.LookupIndex{l})
		}
	}

	// one set of contexts for the whole history
	var ctxs []*gtab.Context
	for _, s := range stages {
		ctxs = append(ctxs, gtab.NewContext(ll, t.gdef, s))
	}
	tablesBefore := snap.Hash(t.gsub, t.gpos, t.gdef)
	apply := func(name string, ctxs []*gtab.Context, seq []glyph.Info, shared bool) (out []glyph.Info, ok bool) {
		out = copySeq(seq)
		if shared {
			shareText(out)
		}
		for i, ctx := range ctxs {
			before := len(out)
			if before*(1+64*grow) > c07MaxGlyphs {
				r.Count("stopped: sequence could grow beyond the limit of the harness")
				return out, true
			}
			text := runes(out)
			in := ""
			if r.Verbose {
				in = showSeq(out)
			}
			if !r.Guard("Apply", func() { out = ctx.Apply(out) }) {
				return nil, false
			}
			if r.Verbose {
				r.Logf("%s: %v: %s -> %s", name, stages[i], in, showSeq(out))
			}
			if !sameRunes(text, runes(out)) {
				r.Violate("text", "%s: lookups %v: text %q became %q", name, stages[i], string(text), string(runes(out)))
				return nil, false
			}
			limit := before
			if grow > 0 {
				limit = before * (1 + 64*grow)
			}
			if len(out) > limit || gpos && len(out) != before {
				r.Violate("length", "%s: lookups %v: %d glyphs became %d (limit %d)", name, stages[i], before, len(out), limit)
				return nil, false
			}
			if grow > 0 && len(out) > before {
				r.Count("calls where the sequence grew")
			}
			if len(out) < before {
				r.Count("calls where the sequence shrank")
			}
		}
		return out, true
	}

	type past struct {
		out []glyph.Info
		h   uint64
	}
	var history []past
	k := c.R(1, 4)
	for i := 0; i < k; i++ {
		seq := c07Seq(c, n, alpha)
		// The texts may be parts of one array, as when a caller cuts up a text.
		shared := c.P(1, 3)
		if i > 0 && c.P(1, 4) {
			seq = nil
		}
		out, ok := apply(fmt.Sprintf("call %d", i), ctxs, seq, shared)
		if !ok {
			return
		}
		h := snap.Hash(out)
		r.Ev(h)
		// the same call with fresh tables and fresh contexts
		t2 := mk()
		var ctxs2 []*gtab.Context
		for _, s := range stages {
			ctxs2 = append(ctxs2, gtab.NewContext(pickInfo(t2).LookupList, t2.gdef, s))
		}
		out2, ok := apply(fmt.Sprintf("call %d, fresh context", i), ctxs2, seq, shared)
		if !ok {
			return
		}
		if snap.Hash(out2) != h {
			r.Violate("history", "call %d of a history gave %s, a fresh context gives %s", i, showSeq(out), showSeq(out2))
			return
		}
		if snap.Hash(seq) != snap.Hash(out) {
			r.NonTrivial = true
			r.Count("calls with an effect")
		}
		r.Count("calls")
		for j, p := range history {
			if snap.Hash(p.out) != p.h {
				r.Violate("aliasing", "call %d changed the result of call %d", i, j)
				return
			}
		}
		history = append(history, past{out, h})
		if tablesAfter := snap.Hash(t.gsub, t.gpos, t.gdef); tablesAfter != tablesBefore {
			r.Violate("tables-modified", "Apply modified the tables: %s", snap.Diff(mk(), t))
			return
		}
	}
}

// c07MaxGlyphs bounds the sequences which a run lets the library build.
const c07MaxGlyphs = 200_000

// c07Layout checks histories of Layout calls.
func c07Layout(r *core.Run) {
	c := r.C
	alpha := c.R(2, 12)
	n := alpha + 1 + c.N(12)
	src := c07Source(r, n, alpha)
	kind := c.N(gen.NumKinds)
	seed := c.U(1 << 60)
	noGsub, noGpos := c.P(1, 6), c.P(1, 6)
	chars := []rune("ABCDEFGHIJKLMNOPQRSTUVWXYZ")[:min(26, n-1)]
	mk := func() *sfnt.Font {
		f := gen.Font(core.NewC(seed), &gen.FOpt{Kind: kind, MinGlyphs: n, MaxGlyphs: n, Chars: chars, Plain: true})
		t := src()
		f.Gsub, f.Gpos, f.Gdef = t.gsub, t.gpos, t.gdef
		if noGsub {
			f.Gsub = nil
		}
		if noGpos {
			f.Gpos = nil
		}
		return f
	}
	f := mk()
	lang := language.MustParse(c16Langs[c.N(len(c16Langs))])
	features := func(info *gtab.Info) map[string]bool {
		if c.P(1, 4) || info == nil {
			return nil
		}
		m := map[string]bool{}
		for _, ft := range info.FeatureList {
			m[ft.Tag] = !c.P(1, 6)
		}
		return m
	}
	gsubF, gposF := features(f.Gsub), features(f.Gpos)
	grow := 0
	if f.Gsub != nil {
		grow = maxGrow(f.Gsub.LookupList)
	}

	newLayouter := func(f *sfnt.Font) (*sfnt.Layouter, bool) {
		var l *sfnt.Layouter
		var err error
		ok := r.Guard("NewLayouter", func() { l, err = f.NewLayouter(lang, gsubF, gposF) })
		if err != nil {
			r.Logf("NewLayouter: %v", err)
			r.Count("layouter: no usable character map")
			return nil, false
		}
		return l, ok
	}
	shared, ok := newLayouter(f)
	if !ok {
		return
	}
	before := snap.HashExported(f)
	best, err := f.CMapTable.GetBest()
	if err != nil {
		return
	}

	type past struct {
		hash uint64
	}
	seen := map[string]past{}
	var strs []string
	for i, k := 0, c.R(1, 5); i < k; i++ {
		var s string
		if len(strs) > 0 && c.P(1, 3) {
			s = strs[c.N(len(strs))]
		} else {
			m := c.N(c.R(1, 30))
			rr := make([]rune, m)
			for j := range rr {
				rr[j] = chars[c.N(len(chars))]
				if c.P(1, 12) {
					rr[j] = []rune{'?', 0, 0x10ffff, 'a', 0xfb01, 0xfffd}[c.N(6)]
				}
			}
			s = string(rr)
			if c.P(1, 20) {
				s += "\xff\x80"
			}
		}
		strs = append(strs, s)

		// Does the text explode?  The estimate uses one context per lookup.
		if grow > 0 {
			var seq []glyph.Info
			for _, ch := range s {
				seq = append(seq, glyph.Info{GID: best.Lookup(ch)})
			}
			t := mk()
			feats := gsubF
			if feats == nil {
				feats = gtab.GsubDefaultFeatures
			}
			var ll []gtab.LookupIndex
			if !r.Guard("FindLookups", func() { ll = t.Gsub.FindLookups(lang, feats) }) {
				return
			}
			boom := false
			for _, l := range ll {
				if len(seq)*(1+64*grow) > c07MaxGlyphs {
					boom = true
					break
				}
				if !r.Guard("Apply", func() { seq = gtab.NewContext(t.Gsub.LookupList, t.Gdef, []gtab.LookupIndex{l}).Apply(seq) }) {
					return
				}
			}
			if boom {
				r.Count("layout: text would grow too long, not laid out")
				continue
			}
		}

		lay := func(what string, l *sfnt.Layouter) (out []glyph.Info, ok bool) {
			if !r.Guard("Layout", func() { out = copySeq(l.Layout(s)) }) {
				return nil, false
			}
			if r.Verbose {
				r.Logf("%s: Layout(%q) = %s", what, s, showSeq(out))
			}
			want := []rune(s)
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			if got := runes(out); !sameRunes(want, got) {
				r.Violate("layout-text", "%s: Layout(%q) has the text %q", what, s, string(got))
				return nil, false
			}
			if grow == 0 && len(out) > len(want) {
				r.Violate("layout-length", "%s: Layout(%q) has %d glyphs for %d characters", what, s, len(out), len(want))
				return nil, false
			}
			return out, true
		}
		out, ok := lay(fmt.Sprintf("call %d", i), shared)
		if !ok {
			return
		}
		fresh, ok := newLayouter(mk())
		if !ok {
			r.Violate("layout-history", "NewLayouter fails for an equal font")
			return
		}
		out2, ok := lay(fmt.Sprintf("call %d, fresh layouter", i), fresh)
		if !ok {
			return
		}
		h := snap.Hash(out)
		r.Ev(h)
		if snap.Hash(out2) != h {
			r.Violate("layout-history", "Layout(%q): call %d gave %s, a fresh layouter gives %s", s, i, showSeq(out), showSeq(out2))
			return
		}
		if p, ok := seen[s]; ok && p.hash != h {
			r.Violate("layout-history", "Layout(%q) gave different results", s)
			return
		}
		seen[s] = past{hash: h}
		r.Count("layout calls")
		for j, ch := range []rune(s) {
			if len(out) != len([]rune(s)) || out[j].GID != best.Lookup(ch) {
				r.NonTrivial = true
			}
		}
	}
	if snap.HashExported(f) != before {
		r.Violate("layout-modified", "Layout modified the font: %s", snap.Diff(mk(), f))
	}
}
