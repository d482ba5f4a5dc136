package props

import (
	"bytes"
	"fmt"
	"maps"
	"math"
	"runtime"
	"slices"
	"strings"
	"time"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/mac"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"

	"verif/sim/worker/core"
	"verif/sim/worker/gen"
	"verif/sim/worker/snap"
)

func init() {
	register(&core.Prop{ID: "C15", Run: runC15, Budget: 400_000_000, HeapMax: 1 << 30})
}

var c15Langs = []string{
	"und", "en", "en-GB", "de", "de-AT", "de-CH", "tr", "ro", "fr", "nl", "ru", "ru-Latn", "sr", "sr-Latn", "el", "he", "ar", "ur", "hi", "ja", "zh-Hans", "zh-Hant-HK", "ko",
	"und-Latn", "und-Cyrl", "und-Arab", "und-Zzzz", "az", "mo", "bg", "x-sim", "vi", "yi", "fa",
}

// c15Tags are the language systems for feature selection.
var c15Tags = append(append([]string{}, gen.Tags...), "fr-Latn-x-latn-fra", "nl-Latn-x-latn-nld", "en-Latn-x-latn-eng", "bg-Cyrl-x-cyrl-bgr", "mk-Cyrl-x-cyrl-mkd",
	"fa-Arab-x-arab-far", "und-Deva-x-dev2", "mr-Deva-x-dev2-mar", "und-Thai-x-thai", "az-Latn-x-latn-aze", "vi-Latn-x-latn-vit", "pl-Latn", "ja-Jpan", "und-Hani-x-hani")

var gsubDefaults = map[string]bool{"calt": true, "ccmp": true, "clig": true, "liga": true, "locl": true}
var gposDefaults = map[string]bool{"kern": true, "mark": true, "mkmk": true}

func c15Lang(c *core.C, info ...*gtab.Info) language.Tag {
	if c.P(2, 5) {
		// a language system of the font
		for _, g := range info {
			if g == nil || len(g.ScriptList) == 0 {
				continue
			}
			tags := c15Sorted(g)
			return tags[c.N(len(tags))]
		}
	}
	if c.P(1, 4) {
		return language.MustParse(c15Tags[c.N(len(c15Tags))])
	}
	return language.MustParse(c15Langs[c.N(len(c15Langs))])
}

func c15Sorted(g *gtab.Info) []language.Tag {
	var tags []language.Tag
	for t := range g.ScriptList {
		tags = append(tags, t)
	}
	slices.SortFunc(tags, func(a, b language.Tag) int { return strings.Compare(a.String(), b.String()) })
	return tags
}

// c15Systems lists the language systems which may be chosen for a language:
// the result of language matching, where ties may be broken in any order.  The
// default script, if present, is chosen in case there is no match.
func c15Systems(g *gtab.Info, lang language.Tag) []language.Tag {
	tags := c15Sorted(g)
	if len(tags) == 1 {
		return tags
	}
	var res []language.Tag
	for _, t := range tags {
		if t == lang {
			return []language.Tag{t}
		}
	}
	isDef := func(t language.Tag) bool { return t.String() == "und-Zzzz" || t.String() == "und-Zzzz-x-dflt" }
	var defs, rest []language.Tag
	for _, t := range tags {
		if isDef(t) {
			defs = append(defs, t)
		} else {
			rest = append(rest, t)
		}
	}
	perm := append(slices.Clone(defs), rest...)
	back := slices.Clone(rest)
	slices.Reverse(back)
	for _, p := range [][]language.Tag{perm, append(slices.Clone(defs), back...)} {
		_, i, conf := language.NewMatcher(p).Match(lang)
		if len(defs) == 0 && conf == language.No {
			return tags // there is no default
		}
		if !slices.Contains(res, p[i]) {
			res = append(res, p[i])
		}
	}
	return res
}

// c15Select computes the lookups of one language system.
func c15Select(g *gtab.Info, sys language.Tag, on map[string]bool) []gtab.LookupIndex {
	ff := g.ScriptList[sys]
	if ff == nil {
		return nil
	}
	want := make([]bool, len(g.LookupList))
	add := func(f gtab.FeatureIndex) {
		for _, l := range g.FeatureList[f].Lookups {
			if int(l) < len(want) {
				want[l] = true
			}
		}
	}
	if int(ff.Required) < len(g.FeatureList) {
		add(ff.Required)
	}
	for _, f := range ff.Optional {
		if int(f) < len(g.FeatureList) && on[g.FeatureList[f].Tag] {
			add(f)
		}
	}
	var res []gtab.LookupIndex
	for i, w := range want {
		if w {
			res = append(res, gtab.LookupIndex(i))
		}
	}
	return res
}

// c15Allowed lists the possible results of feature selection.
func c15Allowed(g *gtab.Info, lang language.Tag, on map[string]bool) [][]gtab.LookupIndex {
	if g == nil || len(g.ScriptList) == 0 {
		return [][]gtab.LookupIndex{nil}
	}
	var res [][]gtab.LookupIndex
	for _, sys := range c15Systems(g, lang) {
		ll := c15Select(g, sys, on)
		if !slices.ContainsFunc(res, func(x []gtab.LookupIndex) bool { return slices.Equal(x, ll) }) {
			res = append(res, ll)
		}
	}
	return res
}

func c15Switches(c *core.C, g *gtab.Info, defaults map[string]bool) (sel, on map[string]bool) {
	switch c.W(4, 1, 3, 2) {
	case 0:
		return nil, defaults
	case 1:
		return map[string]bool{}, nil
	}
	m := map[string]bool{}
	if g != nil {
		for _, f := range g.FeatureList {
			switch c.N(4) {
			case 0, 1:
				m[f.Tag] = true
			case 2:
				m[f.Tag] = false
			}
		}
	}
	for t := range defaults {
		_ = t
	}
	for _, t := range []string{"liga", "kern", "mark", "ss01", "xxxx"} {
		if c.P(1, 3) {
			m[t] = c.P(1, 2)
		}
	}
	return m, m
}

func runC15(r *core.Run) {
	c := r.C
	runtime.SimSetClock(1700000000, 0)
	time.Local = time.UTC
	defer func() { time.Local = time.UTC }()
	switch c.W(3, 4, 5, 3) {
	case 0:
		c15Features(r)
	case 1:
		c15Layout(r, false)
	case 2:
		c15File(r)
	case 3:
		c15Layout(r, true)
	}
}

// ------------------------------------------------------------------------

// c15Features checks feature selection alone.
func c15Features(r *core.Run) {
	c := r.C
	r.Count("mode: feature selection")
	mk := func(c *core.C) *gtab.Info {
		g := &gtab.Info{ScriptList: gtab.ScriptListInfo{}}
		nl := c.N(12)
		if c.P(1, 10) {
			nl = c.N(300)
		}
		for i := 0; i < nl; i++ {
			g.LookupList = append(g.LookupList, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 1}})
		}
		nf := c.N(9)
		tags := []string{"liga", "kern", "calt", "locl", "ss01", "mark", "test", "rlig"}
		for i := 0; i < nf; i++ {
			f := &gtab.Feature{Tag: tags[c.N(len(tags))]}
			for j, k := 0, c.N(6); j < k; j++ {
				x := c.N(nl + 2)
				if c.P(1, 15) {
					x = []int{65535, nl, nl + 1, 32768}[c.N(4)]
				}
				f.Lookups = append(f.Lookups, gtab.LookupIndex(x))
			}
			g.FeatureList = append(g.FeatureList, f)
		}
		ns := c.R(1, 20)
		if c.P(1, 2) {
			ns = c.R(1, 4)
		}
		for i := 0; i < ns; i++ {
			ff := &gtab.Features{Required: 0xFFFF}
			switch c.N(4) {
			case 0:
				ff.Required = gtab.FeatureIndex(c.N(nf + 1))
			case 1:
				if c.P(1, 4) {
					ff.Required = gtab.FeatureIndex([]int{nf, nf + 1, 0xFFFE, 0}[c.N(4)])
				}
			}
			for j, k := 0, c.N(5); j < k; j++ {
				x := c.N(nf + 1)
				if c.P(1, 15) {
					x = 0xFFFF
				}
				ff.Optional = append(ff.Optional, gtab.FeatureIndex(x))
			}
			g.ScriptList[language.MustParse(c15Tags[c.N(len(c15Tags))])] = ff
		}
		return g
	}
	start := len(c.Rec)
	g := mk(c)
	ref := mk(core.ReplayC(slices.Clone(c.Rec[start:])))
	r.NonTrivial = len(g.FeatureList) > 0 && len(g.LookupList) > 0

	type query struct {
		lang language.Tag
		sel  map[string]bool
		res  []gtab.LookupIndex
	}
	var hist []query
	for i, k := 0, c.R(1, 6); i < k; i++ {
		var q query
		again := len(hist) > 0 && c.P(1, 2)
		if again {
			q = hist[c.N(len(hist))]
		} else {
			q.lang = c15Lang(c, ref)
			q.sel, _ = c15Switches(c, ref, nil)
		}
		c01Env(r)
		selBefore := fmt.Sprint(q.sel)
		var got []gtab.LookupIndex
		if !r.Guard("FindLookups", func() { got = g.FindLookups(q.lang, q.sel) }) {
			return
		}
		r.Logf("FindLookups(%s, %v) = %v (%d systems, %d lookups)", q.lang, selBefore, got, len(ref.ScriptList), len(ref.LookupList))
		for j, l := range got {
			if int(l) >= len(ref.LookupList) {
				r.Violate("features/range", "FindLookups(%s, %v) = %v: %d is not a lookup", q.lang, selBefore, got, l)
				return
			}
			if j > 0 && got[j-1] >= l {
				r.Violate("features/order", "FindLookups(%s, %v) = %v: not in ascending order", q.lang, selBefore, got)
				return
			}
		}
		if again && !slices.Equal(got, q.res) {
			r.Violate("features/unstable", "FindLookups(%s, %v) = %v, before it was %v", q.lang, selBefore, got, q.res)
			return
		}
		allowed := c15Allowed(ref, q.lang, q.sel)
		if !slices.ContainsFunc(allowed, func(x []gtab.LookupIndex) bool { return slices.Equal(x, got) }) {
			r.Violate("features/wrong", "FindLookups(%s, %v) = %v, want one of %v; language systems %v of %v", q.lang, selBefore, got, allowed, c15Systems(ref, q.lang), c15Sorted(ref))
			return
		}
		if len(allowed) == 1 {
			r.Count("feature selections with one answer")
		} else {
			r.Count("feature selections with several possible answers")
		}
		if fmt.Sprint(q.sel) != selBefore {
			r.Violate("features/switches", "FindLookups changes the feature switches")
			return
		}
		if !again {
			q.res = slices.Clone(got)
			hist = append(hist, q)
		}
		// the result belongs to the caller
		for j := range got {
			got[j] = 9999
		}
	}
	if d := snap.Diff(ref, g); d != "" {
		r.Violate("features/changed", "FindLookups changes the table: %s", d)
	}
}

// ------------------------------------------------------------------------

// c15Model is what a font should do.
type c15Model struct {
	n      int
	lookup func(r rune) glyph.ID // nil: the font has no usable character map
	widths []float64
	mark   func(g glyph.ID) bool

	// One of: rules in the font (tables of an equal font, made by mk), the
	// simple interpreter, or what Read adds to the font.
	ref   func() *sfnt.Font
	sim   *c15Simple
	ligs  []c15Lig
	noSub bool // no GSUB at all
	kern  map[glyph.Pair]int
	noPos bool
}

type c15Lig struct {
	in  []glyph.ID
	out glyph.ID
}

// c15Cmap installs character maps and returns the mapping of the best one.
func c15Cmap(c *core.C, f *sfnt.Font, pool []rune) func(r rune) glyph.ID {
	n := f.NumGlyphs()
	f.CMapTable = cmap.Table{}
	var best func(r rune) glyph.ID
	mkMap := func() map[rune]glyph.ID {
		m := map[rune]glyph.ID{}
		for i := 1; i < n; i++ {
			if c.P(1, 5) {
				continue
			}
			ch := pool[c.N(len(pool))]
			if i < len(pool) && c.P(2, 3) {
				ch = pool[i-1]
			}
			m[ch] = glyph.ID(i)
			if c.P(1, 8) {
				m[pool[c.N(len(pool))]] = glyph.ID(i)
			}
		}
		if c.P(1, 10) {
			m[pool[c.N(len(pool))]] = glyph.ID([]int{n, 65535, n + c.N(50)}[c.N(3)])
		}
		return m
	}
	from := func(m map[rune]glyph.ID) func(r rune) glyph.ID {
		return func(r rune) glyph.ID { return m[r] }
	}
	type cand struct{ p, e uint16 }
	cands := []cand{{3, 10}, {0, 4}, {3, 1}, {0, 3}, {1, 0}}
	only := c.N(len(cands))
	for i, k := range cands {
		if i != only && !c.P(1, 3) {
			continue
		}
		m := mkMap()
		chars := slices.Sorted(maps.Keys(m))
		key := cmap.Key{PlatformID: k.p, EncodingID: k.e}
		var data []byte
		var look func(r rune) glyph.ID
		format := 4
		switch {
		case i < 2 && !c.P(1, 8), c.P(1, 8) && i < 4:
			format = 12
		case i < 4 && c.P(1, 6):
			format = 6
		case i == 4:
			format = []int{0, 6, 4}[c.W(4, 1, 1)]
		}
		switch format {
		case 12:
			f12 := cmap.Format12{}
			for _, ch := range chars {
				g := m[ch]
				f12[uint32(ch)] = g
			}
			data = f12.Encode(0)
			look = from(m)
		case 4:
			f4 := cmap.Format4{}
			m2 := map[rune]glyph.ID{}
			for _, ch := range chars {
				g := m[ch]
				if i == 4 {
					b := byte(ch)
					f4[uint16(b)] = g
				} else if ch < 0x10000 {
					f4[uint16(ch)] = g
					m2[ch] = g
				}
			}
			if i == 4 {
				for b, g := range f4 {
					m2[mac.DecodeOne(byte(b))] = g
				}
			}
			data = f4.Encode(0)
			look = from(m2)
		case 6:
			first := 'A'
			if c.P(1, 2) {
				first = 'a'
			}
			count := c.R(1, 40)
			if i == 4 && c.P(1, 3) {
				first = 0x80
				count = c.R(1, 128)
			}
			data = []byte{0, 6, 0, 0, 0, 0, byte(first >> 8), byte(first), byte(count >> 8), byte(count)}
			m2 := map[rune]glyph.ID{}
			for j := 0; j < count; j++ {
				g := glyph.ID(c.N(n))
				data = append(data, byte(g>>8), byte(g))
				ch := first + rune(j)
				if i == 4 {
					ch = mac.DecodeOne(byte(ch))
				}
				if g != 0 {
					m2[ch] = g
				}
			}
			data[2], data[3] = byte(len(data)>>8), byte(len(data))
			look = from(m2)
		case 0:
			f0 := &cmap.Format0{}
			m2 := map[rune]glyph.ID{}
			for b := 32; b < 256; b++ {
				if b >= 128 && !c.P(1, 3) {
					continue
				}
				g := glyph.ID(c.N(min(n, 256)))
				f0.Data[b] = byte(g)
				if g != 0 {
					m2[mac.DecodeOne(byte(b))] = g
				}
			}
			data = f0.Encode(0)
			look = from(m2)
		}
		if c.P(1, 10) {
			// a subtable which cannot be used
			switch c.N(2) {
			case 0:
				data = []byte{0, 14, 0, 0, 0, 10, 0, 0, 0, 0}
			case 1:
				data = []byte{0, 12, 0, 0, 0, 0, 0, 28, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 9, 0, 0, 0, 8, 0, 0, 0, 1}
			}
			look = nil
		}
		f.CMapTable[key] = data
		if best == nil {
			best = look
		}
	}
	if c.P(1, 6) {
		// never the best one
		f.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 0}] = cmap.Format4{'A': 1}.Encode(0)
	}
	return best
}

func c15Widths(c *core.C, f *sfnt.Font) []float64 {
	mode := c.W(6, 2, 1)
	switch o := f.Outlines.(type) {
	case *cff.Outlines:
		w := float64(c.R(1, 1000))
		for _, g := range o.Glyphs {
			switch mode {
			case 1:
				g.Width = w
				if c.P(1, 10) {
					g.Width = 0
				}
			case 2:
				if c.P(1, 2) {
					g.Width += float64(c.N(8)) / 8
				}
			}
		}
	case *glyf.Outlines:
		w := funit.Int16(c.R(1, 1000))
		if mode == 1 {
			for i := range o.Widths {
				o.Widths[i] = w
				if c.P(1, 10) {
					o.Widths[i] = 0
				}
			}
		}
	}
	var res []float64
	for i := 0; i < f.NumGlyphs(); i++ {
		switch o := f.Outlines.(type) {
		case *cff.Outlines:
			res = append(res, o.Glyphs[i].Width)
		case *glyf.Outlines:
			res = append(res, float64(o.Widths[i]))
		}
	}
	return res
}

func c15Mark(g *gdef.Table) func(glyph.ID) bool {
	cl := map[glyph.ID]bool{}
	if g != nil {
		for gid, k := range g.GlyphClass {
			if k == 3 {
				cl[gid] = true
			}
		}
	}
	return func(g glyph.ID) bool { return cl[g] }
}

var c15Pool = []rune("ABfilCDxyzVTo ,éß\u0301\ufb00\ufb01\ufb02\ufb03\ufb04Ωж\u20ac\U00010041\U0001F600\U00010066")

func c15String(c *core.C, k int) string {
	var sb strings.Builder
	for i, m := 0, c.N(c.R(1, k)); i < m; i++ {
		switch c.W(12, 2, 2, 1) {
		case 0:
			sb.WriteRune(c15Pool[c.N(len(c15Pool))])
		case 1:
			sb.WriteString([]string{"fi", "fl", "ff", "ffi", "ffl", "fff", "fffi"}[c.N(7)])
		case 2:
			sb.WriteRune([]rune{'?', 0, 0x10ffff, 'a', 0xfffd, 0x10000 + c15Pool[c.N(9)], rune(c.R(0x80, 0x2ff)), 0x7f, 0xf8ff}[c.N(9)])
		case 3:
			sb.WriteString([]string{"\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80"}[c.N(4)])
		}
	}
	return sb.String()
}

// c15Expect computes the possible results of Layout.
func (m *c15Model) expect(r *core.Run, s string, lang language.Tag, subOn, posOn map[string]bool) (res [][]glyph.Info, ok bool) {
	var seq []glyph.Info
	for _, ch := range s {
		seq = append(seq, glyph.Info{GID: m.lookup(ch), Text: []rune{ch}})
	}
	width := func(seq []glyph.Info) {
		for i := range seq {
			g := seq[i].GID
			if int(g) < m.n && !m.mark(g) {
				seq[i].Advance = funit.Int16(m.widths[g])
			}
		}
	}

	var afterSub [][]glyph.Info
	switch {
	case m.sim != nil && m.sim.gsub != nil:
		for _, ll := range c15Allowed(m.sim.gsub, lang, subOn) {
			afterSub = append(afterSub, m.sim.applySub(ll, copySeq(seq)))
		}
	case m.ligs != nil:
		out := copySeq(seq)
		if subOn["liga"] {
			out = c15ApplyLigs(m.ligs, out)
			if len(out) != len(seq) {
				r.Count("texts with standard ligatures")
			}
		}
		afterSub = append(afterSub, out)
	case m.noSub || m.ref == nil:
		afterSub = append(afterSub, copySeq(seq))
	default:
		f := m.ref()
		if f.Gsub == nil {
			afterSub = append(afterSub, copySeq(seq))
			break
		}
		for _, ll := range c15Allowed(f.Gsub, lang, subOn) {
			f := m.ref()
			out := copySeq(seq)
			if !r.Guard("Apply(GSUB)", func() { out = gtab.NewContext(f.Gsub.LookupList, f.Gdef, ll).Apply(out) }) {
				return nil, false
			}
			afterSub = append(afterSub, copySeq(out))
		}
	}

	for _, seq := range afterSub {
		width(seq)
		switch {
		case m.sim != nil && m.sim.gpos != nil:
			for _, ll := range c15Allowed(m.sim.gpos, lang, posOn) {
				res = append(res, m.sim.applyPos(ll, copySeq(seq)))
			}
		case m.kern != nil:
			out := copySeq(seq)
			if posOn["kern"] {
				for i := 0; i+1 < len(out); i++ {
					if k := m.kern[glyph.Pair{Left: out[i].GID, Right: out[i+1].GID}]; k != 0 {
						out[i].Advance += funit.Int16(k)
						r.Count("pairs kerned")
					}
				}
			}
			res = append(res, out)
		case m.noPos || m.ref == nil:
			res = append(res, copySeq(seq))
		default:
			f := m.ref()
			if f.Gpos == nil {
				res = append(res, copySeq(seq))
				break
			}
			for _, ll := range c15Allowed(f.Gpos, lang, posOn) {
				f := m.ref()
				out := copySeq(seq)
				if !r.Guard("Apply(GPOS)", func() { out = gtab.NewContext(f.Gpos.LookupList, f.Gdef, ll).Apply(out) }) {
					return nil, false
				}
				res = append(res, copySeq(out))
			}
		}
	}
	return res, true
}

func c15ApplyLigs(ligs []c15Lig, seq []glyph.Info) []glyph.Info {
	var out []glyph.Info
	for i := 0; i < len(seq); {
		done := false
		for _, l := range ligs {
			k := len(l.in)
			if i+k > len(seq) {
				continue
			}
			same := true
			for j, g := range l.in {
				if seq[i+j].GID != g {
					same = false
				}
			}
			if !same {
				continue
			}
			var text []rune
			for j := range l.in {
				text = append(text, seq[i+j].Text...)
			}
			out = append(out, glyph.Info{GID: l.out, Text: text})
			i += k
			done = true
			break
		}
		if !done {
			out = append(out, seq[i])
			i++
		}
	}
	return out
}

// c15Ligs lists the standard ligatures contained in a font.
func c15Ligs(lookup func(rune) glyph.ID) (res []c15Lig) {
	for _, l := range []struct {
		lig   rune
		parts string
	}{{0xFB03, "ffi"}, {0xFB04, "ffl"}, {0xFB00, "ff"}, {0xFB01, "fi"}, {0xFB02, "fl"}} {
		x := c15Lig{out: lookup(l.lig)}
		ok := x.out != 0
		for _, ch := range l.parts {
			g := lookup(ch)
			x.in = append(x.in, g)
			ok = ok && g != 0
		}
		if ok {
			res = append(res, x)
		}
	}
	return res
}

// fits compares a result of Layout with the model.
func (m *c15Model) fits(want, got []glyph.Info) string {
	if len(want) != len(got) {
		return "length"
	}
	for i, w := range want {
		g := got[i]
		if w.GID != g.GID {
			return "glyph"
		}
		if string(w.Text) != string(g.Text) {
			return "text"
		}
		if w.XOffset != g.XOffset || w.YOffset != g.YOffset {
			return "offset"
		}
		if int(g.GID) >= m.n {
			continue // no such glyph, no advance width
		}
		d := int(w.Advance) - int(g.Advance)
		if d == 0 {
			continue
		}
		if x := m.widths[g.GID]; x != math.Trunc(x) && d >= -1 && d <= 1 {
			continue // widths are rounded
		}
		return "advance"
	}
	return ""
}

// c15Run compares histories of Layout calls with the model.
func c15Run(r *core.Run, what string, f *sfnt.Font, m *c15Model) {
	c := r.C
	var lay *sfnt.Layouter
	latin := m.ligs != nil
	for i, k := 0, c.R(1, 2); i < k && r.Viol == nil; i++ {
		lang := c15Lang(c, f.Gsub, f.Gpos)
		if latin {
			if s, _ := lang.Script(); s.String() != "Latn" {
				lang = language.MustParse([]string{"und-Latn", "en", "de", "und-Latn-x-latn"}[c.N(4)])
			}
		}
		subSel, subOn := c15Switches(c, f.Gsub, gsubDefaults)
		posSel, posOn := c15Switches(c, f.Gpos, gposDefaults)
		var err error
		if !r.Guard("NewLayouter", func() { lay, err = f.NewLayouter(lang, subSel, posSel) }) {
			return
		}
		if (err != nil) != (m.lookup == nil) {
			r.Violate("layout/cmap", "%s: NewLayouter: error %v, but usable character map: %v", what, err, m.lookup != nil)
			return
		}
		if err != nil {
			r.Count("no usable character map")
			return
		}
		r.Logf("%s: layouter for %s, GSUB %v, GPOS %v", what, lang, subSel, posSel)
		type past struct {
			s   string
			res []glyph.Info
		}
		var hist []past
		for j, z := 0, c.R(1, 5); j < z; j++ {
			s := c15String(c, 16)
			var old []glyph.Info
			again := len(hist) > 0 && c.P(1, 3)
			if again {
				h := hist[c.N(len(hist))]
				s, old = h.s, h.res
			}
			if c.P(1, 4) {
				c01Env(r)
			}
			l := lay
			if again && c.P(1, 2) {
				if !r.Guard("NewLayouter", func() { l, err = f.NewLayouter(lang, subSel, posSel) }) {
					return
				}
				if err != nil {
					r.Violate("layout/cmap", "%s: NewLayouter fails the second time: %v", what, err)
					return
				}
			}
			want, ok := m.expect(r, s, lang, subOn, posOn)
			if !ok {
				return
			}
			var got []glyph.Info
			if !r.Guard("Layout", func() { got = l.Layout(s) }) {
				return
			}
			r.Logf("%s: Layout(%q) = %s", what, s, showSeq(got))
			bad := ""
			for _, w := range want {
				if bad = m.fits(w, got); bad == "" {
					break
				}
			}
			if bad != "" {
				r.Violate("layout/"+bad+"/"+what, "%s: Layout(%q) in %s = %s, want %s%s", what, s, lang, showSeq(got), showSeq(want[0]), also(len(want)))
				return
			}
			if again && snap.Hash(old) != snap.Hash(copySeq(got)) {
				r.Violate("layout/unstable/"+what, "%s: Layout(%q) = %s, before it was %s", what, s, showSeq(got), showSeq(old))
				return
			}
			if len(s) > 0 {
				r.NonTrivial = true
			}
			if !again {
				hist = append(hist, past{s, copySeq(got)})
			}
		}
	}
}

func also(n int) string {
	if n > 1 {
		return fmt.Sprintf(" (or %d other possibilities)", n-1)
	}
	return ""
}

// c15Layout checks fonts which were not read from a file.
func c15Layout(r *core.Run, simple bool) {
	c := r.C
	r.Count("mode: constructed")
	mk := func(c *core.C) (*sfnt.Font, *c15Model) {
		f := gen.Font(c, &gen.FOpt{Kind: c.N(gen.NumKinds), MinGlyphs: 2, MaxGlyphs: 40, Layout: !simple && c.P(5, 6), GsubTypes: []int{1, 3, 4, 5, 6, 8}, Required: true, NoCmap: true})
		m := &c15Model{n: f.NumGlyphs()}
		m.lookup = c15Cmap(c, f, c15Pool)
		m.widths = c15Widths(c, f)
		if simple {
			m.sim = c15MakeSimple(c, f)
		}
		m.mark = c15Mark(f.Gdef)
		if f.CMapTable != nil && c.P(1, 30) {
			f.CMapTable = nil
			m.lookup = nil
		}
		return f, m
	}
	start := len(c.Rec)
	f, m := mk(c)
	rec := slices.Clone(c.Rec[start:])
	m.ref = func() *sfnt.Font { g, _ := mk(core.ReplayC(rec)); return g }
	what := "tables"
	if simple {
		what = "simple rules"
	}
	c15Run(r, what, f, m)
	if r.Viol == nil {
		if d := snap.Diff(m.ref(), f); d != "" {
			r.Violate("layout/changed", "laying out text changes the font: %s", d)
		}
	}
}

// c15Kern builds a kern table, and returns the kerning it describes.
func c15Kern(c *core.C, n int, mapped []glyph.ID) ([]byte, map[glyph.Pair]int) {
	res := map[glyph.Pair]int{}
	k := c.R(1, 4)
	if c.P(1, 12) {
		k = 0
	}
	big := c.P(1, 150)
	t := []byte{0, 0, 0, byte(k)}
	for i := 0; i < k; i++ {
		flags := 1
		format := 0
		version := 0
		switch c.W(6, 2, 2, 2, 1) {
		case 1:
			flags = 1 | 2 // minimum values
		case 2:
			flags = 1 | 8 // override
		case 3:
			flags = []int{0, 1 | 4, 4, 2, 8, 1 | 16, 1 | 128}[c.N(7)] // not for us
		case 4:
			if c.P(1, 2) {
				format = []int{1, 2, 3}[c.N(3)]
			} else {
				version = 1
			}
		}
		np := c.N(30)
		if c.P(1, 4) {
			np = c.N(4)
		}
		if big && i == 0 && format == 0 && version == 0 {
			np = []int{10919, 10920, 10921, 10922, 10923, 12000, 21844, 21845, 30000, 65535}[c.N(10)]
		}
		type kv struct {
			p glyph.Pair
			v int
		}
		var pairs []kv
		seen := map[glyph.Pair]bool{}
		for j := 0; j < np; j++ {
			p := glyph.Pair{Left: glyph.ID(c.N(n)), Right: glyph.ID(c.N(n))}
			if len(mapped) > 0 && c.P(2, 3) {
				p = glyph.Pair{Left: mapped[c.N(len(mapped))], Right: mapped[c.N(len(mapped))]}
			}
			if np > 1000 {
				p = glyph.Pair{Left: glyph.ID(j / 256), Right: glyph.ID(j % 256)}
			} else if c.P(1, 20) {
				p.Right = glyph.ID([]int{n, 65535, n + 1}[c.N(3)])
			}
			if seen[p] {
				continue
			}
			seen[p] = true
			v := c.N(400) - 200
			if c.P(1, 8) {
				v = []int{0, 1, -1, 255, 256, -256, 8000, -8000}[c.N(8)]
			}
			pairs = append(pairs, kv{p, v})
		}
		slices.SortFunc(pairs, func(a, b kv) int {
			if a.p.Left != b.p.Left {
				return int(a.p.Left) - int(b.p.Left)
			}
			return int(a.p.Right) - int(b.p.Right)
		})
		length := 14 + 6*len(pairs)
		if length > 65535 && i < k-1 {
			// too large for the length field: only the last one can be used
			// without knowing its length
			t[3] = byte(i + 1)
			k = i + 1
		}
		t = append(t, byte(version>>8), byte(version), byte(length>>8), byte(length), byte(format), byte(flags))
		sel := 0
		for 1<<(sel+1) <= len(pairs) {
			sel++
		}
		sr := 6 << sel
		if len(pairs) == 0 {
			sr = 0
		}
		rs := 6*len(pairs) - sr
		t = append(t, byte(len(pairs)>>8), byte(len(pairs)), byte(sr>>8), byte(sr), 0, byte(sel), byte(rs>>8), byte(rs))
		for _, x := range pairs {
			t = append(t, byte(x.p.Left>>8), byte(x.p.Left), byte(x.p.Right>>8), byte(x.p.Right), byte(x.v>>8), byte(x.v))
		}
		if version != 0 || format != 0 || flags&^(2|8) != 1 {
			continue
		}
		for _, x := range pairs {
			switch {
			case flags&2 != 0:
				res[x.p] = max(res[x.p], x.v)
			case flags&8 != 0:
				res[x.p] = x.v
			default:
				res[x.p] += x.v
			}
		}
	}
	return t, res
}

// c15File checks fonts which were read from a file: legacy kerning and
// standard ligatures.
func c15File(r *core.Run) {
	c := r.C
	r.Count("mode: file")
	minGlyphs, maxGlyphs := 2, 40
	if c.P(1, 30) {
		minGlyphs, maxGlyphs = 250, 600
		r.Count("fonts with 250 or more glyphs")
	}
	f := gen.Font(c, &gen.FOpt{Kind: c.N(gen.NumKinds), MinGlyphs: minGlyphs, MaxGlyphs: maxGlyphs, Layout: c.P(1, 2), GsubTypes: []int{1, 3, 4, 5, 6, 8}, Required: true, NoCmap: true, Plain: true})
	if c.P(1, 2) {
		f.Gsub = nil
	}
	if c.P(2, 3) {
		f.Gpos = nil
	}
	m := &c15Model{n: f.NumGlyphs()}
	m.lookup = c15Cmap(c, f, c15Pool)
	m.widths = c15Widths(c, f)
	m.mark = c15Mark(f.Gdef)
	var buf bytes.Buffer
	var err error
	v, _ := core.Catch(func() { _, err = f.Write(&buf) })
	if v != nil || err != nil {
		r.Count("not written")
		return // C01
	}
	scaler, recs := gen.ParseSfntLoose(buf.Bytes())
	var kern map[glyph.Pair]int
	if c.P(2, 3) {
		var data []byte
		var mapped []glyph.ID
		if m.lookup != nil && m.n > 50 {
			for _, ch := range c15Pool {
				if g := m.lookup(ch); g != 0 && int(g) < m.n {
					mapped = append(mapped, g)
				}
			}
		}
		data, kern = c15Kern(c, m.n, mapped)
		recs = append(recs, gen.TableRec{Tag: "kern", Data: data})
	}
	data := gen.BuildSfnt(scaler, recs, &gen.FileOpt{})
	read := func() *sfnt.Font {
		g, err := sfnt.Read(bytes.NewReader(data))
		if err != nil {
			return nil
		}
		return g
	}
	c01Env(r)
	g, err, ok := c01Read(r, "Read", data)
	if !ok {
		return
	}
	if err != nil {
		r.Violate("file/unreadable", "Read fails: %v (kern table: %v)", err, kern != nil)
		return
	}
	model := func() {
		m.ref = read
		if f.Gsub == nil {
			m.noSub = true
			fixed := true
			w := 0.0
			for _, x := range m.widths {
				if x == 0 {
					continue
				}
				if w == 0 {
					w = x
				} else if math.Abs(w-x) >= 0.5 {
					fixed = false
				}
			}
			if !fixed && m.lookup != nil {
				m.ligs = c15Ligs(m.lookup)
				if m.ligs != nil {
					m.noSub = false
					r.Count("fonts with standard ligatures")
				}
			} else {
				r.Count("fixed-pitch fonts without GSUB")
			}
		}
		if f.Gpos == nil {
			if kern != nil {
				m.kern = kern
				r.Count("fonts with a kern table")
			} else {
				m.noPos = true
			}
		}
	}
	model()
	if m.kern != nil && m.lookup != nil {
		c15Pairs(r, "file", g, m)
		if r.Viol != nil {
			return
		}
	}
	c15Run(r, "file", g, m)
	if r.Viol != nil {
		return
	}
	if d := snap.Diff(read(), g); d != "" {
		r.Violate("layout/changed", "laying out text changes the font: %s", d)
		return
	}

	// another restart: what was added by Read is kept
	if c.P(1, 3) {
		var buf2 bytes.Buffer
		v, where := core.Catch(func() { _, err = g.Write(&buf2) })
		if v != nil || err != nil {
			r.Logf("not written: %v %v %s", v, err, where)
			r.Count("not written")
			return // C01
		}
		h, err, ok := c01Read(r, "Read", buf2.Bytes())
		if !ok {
			return
		}
		if err != nil {
			return // C01
		}
		r.Count("second restart")
		if m.kern != nil && m.lookup != nil {
			c15Pairs(r, "second restart", h, m)
			if r.Viol != nil {
				return
			}
		}
		c15Run(r, "second restart", h, m)
	}
}

// c15Pairs checks the kerning of every pair of characters.
func c15Pairs(r *core.Run, what string, f *sfnt.Font, m *c15Model) {
	c := r.C
	lang := c15Lang(c)
	lay, err := f.NewLayouter(lang, map[string]bool{}, nil)
	if err != nil {
		r.Violate("layout/cmap", "%s: NewLayouter fails: %v", what, err)
		return
	}
	var chars []rune
	seen := map[glyph.ID]bool{}
	for _, ch := range c15Pool {
		if g := m.lookup(ch); !seen[g] && len(chars) < 12 {
			seen[g] = true
			chars = append(chars, ch)
		}
	}
	for _, a := range chars {
		for _, b := range chars {
			var got []glyph.Info
			s := string([]rune{a, b})
			if !r.Guard("Layout", func() { got = copySeq(lay.Layout(s)) }) {
				return
			}
			if len(got) != 2 {
				continue // required feature; see the other test
			}
			p := glyph.Pair{Left: m.lookup(a), Right: m.lookup(b)}
			if got[0].GID != p.Left || got[1].GID != p.Right {
				continue
			}
			for i, x := range got {
				if int(x.GID) >= m.n {
					continue
				}
				w := 0.0
				if !m.mark(x.GID) {
					w = math.Trunc(m.widths[x.GID])
				}
				tol := 0
				if !m.mark(x.GID) && m.widths[x.GID] != w {
					tol = 1
				}
				k := 0
				if i == 0 {
					k = m.kern[p]
				}
				if d := int(x.Advance) - int(w) - k; d < -tol || d > tol || x.XOffset != 0 || x.YOffset != 0 {
					r.Violate("kern/"+what, "%s: the pair %d %d has kerning %d, but glyph %d of %q is laid out as %s (width %g)", what, p.Left, p.Right, m.kern[p], i, s, showSeq(got), w)
					return
				}
			}
		}
	}
	r.Count("fonts with all pairs checked")
}

// ------------------------------------------------------------------------

// c15Simple is a model for simple rules.
type c15Simple struct {
	gsub, gpos *gtab.Info
}

// c15MakeSimple installs lookups without flags which are easy to interpret.
func c15MakeSimple(c *core.C, f *sfnt.Font) *c15Simple {
	n := f.NumGlyphs()
	res := &c15Simple{}
	gid := func() glyph.ID { return glyph.ID(c.N(n)) }
	set := func() (ids []glyph.ID) {
		for i, k := 0, c.R(1, 6); i < k; i++ {
			ids = append(ids, gid())
		}
		slices.Sort(ids)
		return slices.Compact(ids)
	}
	val := func() *gtab.GposValueRecord {
		return &gtab.GposValueRecord{XPlacement: funit.Int16(c.N(41) - 20), YPlacement: funit.Int16(c.N(41) - 20), XAdvance: funit.Int16(c.N(201) - 100)}
	}
	if c.P(1, 2) {
		f.Gdef = gen.Gdef(c, n, 0)
	}
	if c.P(4, 5) {
		var ll gtab.LookupList
		for i, k := 0, c.R(1, 4); i < k; i++ {
			tp := []int{1, 2, 4}[c.N(3)]
			l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(tp)}}
			for j, z := 0, c.R(1, 2); j < z; j++ {
				ids := set()
				switch tp {
				case 1:
					if c.P(1, 3) {
						lo, hi := int(ids[0]), int(ids[len(ids)-1])
						l.Subtables = append(l.Subtables, &gtab.Gsub1_1{Cov: gen.Set(ids), Delta: glyph.ID(c.R(-lo, n-1-hi))})
						continue
					}
					t := &gtab.Gsub1_2{Cov: gen.Cov(ids)}
					for range ids {
						t.SubstituteGlyphIDs = append(t.SubstituteGlyphIDs, gid())
					}
					l.Subtables = append(l.Subtables, t)
				case 2:
					t := &gtab.Gsub2_1{Cov: gen.Cov(ids)}
					for range ids {
						var out []glyph.ID
						for q, y := 0, c.R(1, 3); q < y; q++ {
							out = append(out, gid())
						}
						t.Repl = append(t.Repl, out)
					}
					l.Subtables = append(l.Subtables, t)
				case 4:
					t := &gtab.Gsub4_1{Cov: gen.Cov(ids)}
					for range ids {
						var rep []gtab.Ligature
						for q, y := 0, c.R(1, 3); q < y; q++ {
							var in []glyph.ID
							for z, x := 0, c.R(1, 2); z < x; z++ {
								in = append(in, gid())
							}
							rep = append(rep, gtab.Ligature{In: in, Out: gid()})
						}
						t.Repl = append(t.Repl, rep)
					}
					l.Subtables = append(l.Subtables, t)
				}
			}
			ll = append(ll, l)
		}
		res.gsub = gen.Info(c, ll, gen.GsubTags, 6, true, "liga")
		f.Gsub = res.gsub
	}
	if c.P(4, 5) {
		var ll gtab.LookupList
		for i, k := 0, c.R(1, 4); i < k; i++ {
			tp := c.R(1, 2)
			l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(tp)}}
			for j, z := 0, c.R(1, 2); j < z; j++ {
				switch tp {
				case 1:
					l.Subtables = append(l.Subtables, &gtab.Gpos1_1{Cov: gen.Cov(set()), Adjust: val()})
				case 2:
					t := gtab.Gpos2_1{}
					second := c.P(1, 3)
					for q, y := 0, c.R(1, 12); q < y; q++ {
						adj := &gtab.PairAdjust{First: val()}
						if second {
							adj.Second = val()
						}
						t[glyph.Pair{Left: gid(), Right: gid()}] = adj
					}
					l.Subtables = append(l.Subtables, t)
				}
			}
			ll = append(ll, l)
		}
		res.gpos = gen.Info(c, ll, gen.GposTags, 6, true, "kern")
		f.Gpos = res.gpos
	}
	return res
}

func (m *c15Simple) applySub(ll []gtab.LookupIndex, seq []glyph.Info) []glyph.Info {
	for _, idx := range ll {
		l := m.gsub.LookupList[idx]
		var out []glyph.Info
	pos:
		for i := 0; i < len(seq); {
			for _, s := range l.Subtables {
				g := seq[i].GID
				switch s := s.(type) {
				case *gtab.Gsub1_1:
					if s.Cov[g] {
						x := seq[i]
						x.GID = g + s.Delta
						out = append(out, x)
						i++
						continue pos
					}
				case *gtab.Gsub1_2:
					if k, ok := s.Cov[g]; ok {
						x := seq[i]
						x.GID = s.SubstituteGlyphIDs[k]
						out = append(out, x)
						i++
						continue pos
					}
				case *gtab.Gsub2_1:
					if k, ok := s.Cov[g]; ok {
						for j, h := range s.Repl[k] {
							x := glyph.Info{GID: h}
							if j == 0 {
								x.Text = seq[i].Text
							}
							out = append(out, x)
						}
						i++
						continue pos
					}
				case *gtab.Gsub4_1:
					k, ok := s.Cov[g]
					if !ok {
						break
					}
				lig:
					for _, lig := range s.Repl[k] {
						if i+1+len(lig.In) > len(seq) {
							continue
						}
						text := slices.Clone(seq[i].Text)
						for j, h := range lig.In {
							if seq[i+1+j].GID != h {
								continue lig
							}
							text = append(text, seq[i+1+j].Text...)
						}
						out = append(out, glyph.Info{GID: lig.Out, Text: text})
						i += 1 + len(lig.In)
						continue pos
					}
				}
			}
			out = append(out, seq[i])
			i++
		}
		seq = out
	}
	return seq
}

func (m *c15Simple) applyPos(ll []gtab.LookupIndex, seq []glyph.Info) []glyph.Info {
	adj := func(v *gtab.GposValueRecord, x *glyph.Info) {
		if v != nil {
			x.XOffset += v.XPlacement
			x.YOffset += v.YPlacement
			x.Advance += v.XAdvance
		}
	}
	for _, idx := range ll {
		l := m.gpos.LookupList[idx]
	pos:
		for i := 0; i < len(seq); {
			for _, s := range l.Subtables {
				switch s := s.(type) {
				case *gtab.Gpos1_1:
					if _, ok := s.Cov[seq[i].GID]; ok {
						adj(s.Adjust, &seq[i])
						i++
						continue pos
					}
				case gtab.Gpos2_1:
					if i+1 >= len(seq) {
						break
					}
					if a, ok := s[glyph.Pair{Left: seq[i].GID, Right: seq[i+1].GID}]; ok {
						adj(a.First, &seq[i])
						i++
						if a.Second != nil {
							adj(a.Second, &seq[i])
							i++
						}
						continue pos
					}
				}
			}
			i++
		}
	}
	return seq
}
