package props

import (
	"bytes"
	"fmt"
	"maps"
	"runtime"
	"slices"
	"strings"
	"time"

	"seehuhn.de/go/postscript/type1/names"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"

	"verif/sim/worker/core"
	"verif/sim/worker/gen"
	"verif/sim/worker/snap"
)

func init() {
	names.FromUnicode("A") // load the glyph lists, so that all runs start alike
	names.ToUnicode("A", "")
	names.ToUnicode("nosuchname", "")
	names.ToUnicode("a1", "ZapfDingbats")
	register(&core.Prop{ID: "C20", Run: runC20, Budget: 400_000_000, HeapMax: 1 << 30})
}

// nameRule says how a glyph name can be derived from other glyphs.
type nameRule struct {
	in  []glyph.ID
	out glyph.ID
	lig bool
}

// c20Rules lists the substitution rules which can give names.
func c20Rules(info *gtab.Info) (rules []nameRule) {
	if info == nil {
		return nil
	}
	sorted := func(t coverage.Table) []glyph.ID {
		return slices.Sorted(maps.Keys(t))
	}
	for _, l := range info.LookupList {
		if l == nil {
			continue
		}
		for _, s := range l.Subtables {
			switch s := s.(type) {
			case *gtab.Gsub1_1:
				for _, g := range slices.Sorted(maps.Keys(s.Cov)) {
					rules = append(rules, nameRule{in: []glyph.ID{g}, out: g + s.Delta})
				}
			case *gtab.Gsub1_2:
				for _, g := range sorted(s.Cov) {
					rules = append(rules, nameRule{in: []glyph.ID{g}, out: s.SubstituteGlyphIDs[s.Cov[g]]})
				}
			case *gtab.Gsub3_1:
				for _, g := range sorted(s.Cov) {
					for _, h := range s.Alternates[s.Cov[g]] {
						rules = append(rules, nameRule{in: []glyph.ID{g}, out: h})
					}
				}
			case *gtab.Gsub4_1:
				for _, g := range sorted(s.Cov) {
					for _, lig := range s.Repl[s.Cov[g]] {
						rules = append(rules, nameRule{in: append([]glyph.ID{g}, lig.In...), out: lig.Out, lig: true})
					}
				}
			}
		}
	}
	return rules
}

// existing returns the stored glyph names, one per glyph.
func c20Existing(f *sfnt.Font) []string {
	res := make([]string, f.NumGlyphs())
	switch o := f.Outlines.(type) {
	case *cff.Outlines:
		for i, g := range o.Glyphs {
			res[i] = g.Name
		}
	case *glyf.Outlines:
		copy(res, o.Names)
	}
	return res
}

// isNumbered is true for names of the form letters+digits which do not denote
// a character.
func isNumbered(name string) bool {
	k := len(name)
	for k > 0 && name[k-1] >= '0' && name[k-1] <= '9' {
		k--
	}
	if k == len(name) || k == 0 {
		return false
	}
	for i := 0; i < k; i++ {
		ch := name[i]
		if !(ch >= 'A' && ch <= 'Z' || ch >= 'a' && ch <= 'z' || i > 0 && (ch == '.' || ch == '_')) {
			return false
		}
	}
	return names.ToUnicode(name, "") == ""
}

// isSuffix is true for "" and for suffixes .xyz
func isSuffix(s string) bool {
	return s == "" || len(s) > 1 && s[0] == '.' && strings.Trim(s[1:], "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") == ""
}

// c20Basic checks completeness and uniqueness.
func c20Basic(r *core.Run, what string, n int, got []string) bool {
	if len(got) != n {
		r.Violate("count/"+what, "%s: %d names for %d glyphs", what, len(got), n)
		return false
	}
	if n > 0 && got[0] != ".notdef" {
		r.Violate("notdef/"+what, "%s: glyph 0 is called %q", what, got[0])
		return false
	}
	seen := map[string]int{}
	for i, s := range got {
		if s == "" {
			r.Violate("empty/"+what, "%s: glyph %d has no name", what, i)
			return false
		}
		if j, dup := seen[s]; dup {
			r.Violate("duplicate/"+what, "%s: glyphs %d and %d are both called %q", what, j, i, s)
			return false
		}
		seen[s] = i
	}
	return true
}

// c20Names checks a complete list of names against the font.  The map runes
// lists the characters of each glyph.
func c20Names(r *core.Run, what string, orig, got []string, runes map[glyph.ID][]rune, rules []nameRule) bool {
	n := len(orig)
	if !c20Basic(r, what, n, got) {
		return false
	}
	count := map[string]int{}
	for _, s := range orig {
		count[s]++
	}
	kept := make([]bool, n)
	kept[0] = true
	holder := map[string]int{}
	for i, s := range got {
		holder[s] = i
	}
	for i, s := range orig {
		if i == 0 || s == "" || s == ".notdef" || count[s] != 1 {
			continue
		}
		if got[i] != s {
			r.Violate("kept/"+what, "%s: the existing name %q of glyph %d was replaced by %q", what, s, i, got[i])
			return false
		}
		kept[i] = true
	}
	// anchored glyphs have their name before any substitution rule is used
	anchored := slices.Clone(kept)
	for i := range got {
		if got[i] == orig[i] {
			anchored[i] = true
		}
		for _, x := range runes[glyph.ID(i)] {
			if nm := names.FromUnicode(string(x)); got[i] == nm && !strings.Contains(nm, "_") {
				anchored[i] = true
			}
		}
	}
	for i := 1; i < n; i++ {
		g := glyph.ID(i)
		if got[i] == orig[i] {
			r.Count("names: existing")
			continue
		}
		ok := ""
		for _, x := range runes[g] {
			if names.FromUnicode(string(x)) == got[i] {
				ok = "character"
			}
		}
		if ok == "" {
			for _, rule := range rules {
				if rule.out != g {
					continue
				}
				parts := make([]string, 0, len(rule.in))
				for _, x := range rule.in {
					if int(x) < n {
						parts = append(parts, got[x])
					}
				}
				base := strings.Join(parts, "_")
				rest, found := strings.CutPrefix(got[i], base)
				if !found || !isSuffix(rest) || rest == "" && !rule.lig {
					continue
				}
				ok = "variant"
				if rule.lig {
					ok = "ligature"
				}
				break
			}
		}
		if ok == "" && !isNumbered(got[i]) {
			r.Violate("unexplained/"+what, "%s: nothing explains the name %q of glyph %d (was %q)", what, got[i], i, orig[i])
			return false
		}
		if ok != "" {
			r.Count("names: " + ok)
			continue
		}
		r.Count("names: placeholder")
		for _, x := range runes[g] {
			if x >= 0xD800 && x < 0xE000 {
				continue
			}
			nm := names.FromUnicode(string(x))
			if _, used := holder[nm]; !used {
				r.Violate("not-inferred/character/"+what, "%s: glyph %d is called %q, but it is the glyph for %q and no other glyph is called %q", what, i, got[i], x, nm)
				return false
			}
		}
		for _, rule := range rules {
			if rule.out != g {
				continue
			}
			all := true
			for _, x := range rule.in {
				if int(x) >= n || !anchored[x] || x == g {
					all = false
				}
			}
			size := len(rule.in)
			for _, x := range rule.in {
				if int(x) < n {
					size += len(got[x])
				}
			}
			if all && size <= 55 { // PostScript limits the length of names
				r.Violate("not-inferred/rule/"+what, "%s: glyph %d is called %q, but it replaces the glyphs %d", what, i, got[i], rule.in)
				return false
			}
		}
	}
	return true
}

var c20Pool = []string{
	"", "", ".notdef", "A", "B", "a", "A.1", "A.2", "B.1", "a.1", ".notdef.1", "orn001", "orn002", "orn003", "orn004", "orn010",
	"a b", "1x", "(", "ä", "x/y", "a_b", "A_B", "f_i", "fi", "f_f_i", "A_B.1", "uni0041", "u0041", "glyph1", "g001", "space", "nul",
	"aVeryLongGlyphNameWhichHasMoreThanThirtyOneCharacters", "abcdefghijklmnopqrstuvwxyz12345", "A.alt1", "A.alt2", "a.alt1", "B.alt1", "orn1000", ".null", "u1F600", "uFFFD", "Alpha",
}

// c20Scramble damages the glyph names.
func c20Scramble(c *core.C, f *sfnt.Font) {
	n := f.NumGlyphs()
	list := c20Existing(f)
	mode := c.W(4, 6, 6, 4, 3)
	for i := range list {
		switch mode {
		case 0: // nothing, or all
			list[i] = ""
		case 1:
			if c.P(1, 2) {
				list[i] = c20Pool[c.N(len(c20Pool))]
			}
		case 2:
			switch c.N(5) {
			case 0:
				list[i] = ""
			case 1:
				list[i] = list[c.N(n)]
			case 2:
				list[i] = c20Pool[c.N(len(c20Pool))]
			}
		case 3:
			if c.P(1, 6) {
				list[i] = ""
			}
		case 4: // left over from an earlier conversion
			list[i] = ""
			if c.P(1, 2) {
				list[i] = fmt.Sprintf("orn%03d", c.R(1, n+1))
			}
		}
	}
	if c.P(2, 3) {
		list[0] = ".notdef"
	}
	switch o := f.Outlines.(type) {
	case *cff.Outlines:
		if c.P(1, 4) {
			for _, g := range o.Glyphs {
				if c.P(1, 3) {
					g.Width = 0
				}
			}
		}
		if o.ROS != nil && c.P(1, 2) {
			return
		}
		for i, g := range o.Glyphs {
			g.Name = list[i]
		}
		if n > 2 && c.P(1, 40) {
			// one blank glyph, used several times
			i := c.R(1, n-1)
			o.Glyphs[c.R(1, n-1)] = o.Glyphs[i]
		}
	case *glyf.Outlines:
		switch c.W(6, 1, 3, 1) {
		case 1:
			list = nil
		case 2:
			list = list[:c.N(n+1)]
		case 3:
			for i, k := 0, c.R(1, 4); i < k; i++ {
				list = append(list, c20Pool[c.N(len(c20Pool))])
			}
		}
		o.Names = list
	}
}

// c20Cmap installs character maps with characters outside of Unicode, with
// glyphs which do not exist, and with many characters for one glyph.
func c20Cmap(c *core.C, f *sfnt.Font) {
	n := f.NumGlyphs()
	m := cmap.Format12{}
	bad := c.P(1, 4)
	wide := c.P(1, 12)
	for i, k := 0, c.Size(40); i < k; i++ {
		x := []int{0x41 + c.N(26), 0x61 + c.N(26), c.N(0x250), 0xFB00 + c.N(7), 0xD800 + c.N(0x800), c.N(0x3000), 0xFFF0 + c.N(16), 0xF900 + c.N(100), 0x3B1 + c.N(24), 0x2160 + c.N(32)}[c.W(8, 4, 4, 3, 1, 3, 1, 1, 2, 1)]
		g := glyph.ID(c.N(n))
		if bad && c.P(1, 5) {
			g = glyph.ID([]int{n, n + 1, 65535, n + c.N(100)}[c.N(4)])
		}
		m[uint32(x)] = g
	}
	if wide {
		for i, k := 0, c.R(1, 3); i < k; i++ {
			m[[]uint32{0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0x7FFFFFFE}[c.N(6)]] = glyph.ID(c.N(n))
		}
	}
	f4 := cmap.Format4{}
	for x, g := range m {
		if x < 0x10000 {
			f4[uint16(x)] = g
		}
	}
	f.CMapTable = cmap.Table{}
	switch c.W(3, 3, 2, 1) {
	case 0:
		f.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 10}] = m.Encode(0)
	case 1:
		f.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 1}] = f4.Encode(0)
	case 2:
		f0 := &cmap.Format0{}
		copy(f0.Data[:], c.Bytes(256))
		for i := range f0.Data {
			if c.P(1, 2) {
				f0.Data[i] = 0
			} else if !bad {
				f0.Data[i] %= byte(min(n, 255))
			}
		}
		f.CMapTable[cmap.Key{PlatformID: 1, EncodingID: 0}] = f0.Encode(0)
	case 3:
		f.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 0}] = f4.Encode(0)
	}
}

// c20Lookups builds dense sets of substitution rules for naming: chains of
// variants, several rules for one glyph, ligatures of ligatures.
func c20Lookups(c *core.C, f *sfnt.Font) {
	n := f.NumGlyphs()
	gid := func() glyph.ID {
		if c.P(1, 12) {
			return 0
		}
		return glyph.ID(c.N(n))
	}
	set := func(k int) (ids []glyph.ID) {
		for i := 0; i < k; i++ {
			ids = append(ids, gid())
		}
		slices.Sort(ids)
		return slices.Compact(ids)
	}
	var ll gtab.LookupList
	for i, k := 0, c.R(1, 4); i < k; i++ {
		l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{}}
		tp := []int{1, 3, 4, 4}[c.N(4)]
		l.Meta.LookupType = uint16(tp)
		for j, m := 0, c.R(1, 3); j < m; j++ {
			ids := set(c.R(1, 6))
			var s gtab.Subtable
			switch tp {
			case 1:
				if c.P(1, 2) {
					// keep the results inside the font
					lo, hi := int(ids[0]), int(ids[len(ids)-1])
					s = &gtab.Gsub1_1{Cov: gen.Set(ids), Delta: glyph.ID(c.R(-lo, n-1-hi))}
				} else {
					t := &gtab.Gsub1_2{Cov: gen.Cov(ids)}
					for range ids {
						t.SubstituteGlyphIDs = append(t.SubstituteGlyphIDs, gid())
					}
					s = t
				}
			case 3:
				t := &gtab.Gsub3_1{Cov: gen.Cov(ids)}
				for range ids {
					var alt []glyph.ID
					for q, m := 0, c.N(4); q < m; q++ {
						alt = append(alt, gid())
					}
					t.Alternates = append(t.Alternates, alt)
				}
				s = t
			case 4:
				t := &gtab.Gsub4_1{Cov: gen.Cov(ids)}
				for range ids {
					var rep []gtab.Ligature
					for q, m := 0, c.N(4); q < m; q++ {
						var in []glyph.ID
						for z, y := 0, c.N(4); z < y; z++ {
							in = append(in, gid())
						}
						rep = append(rep, gtab.Ligature{In: in, Out: gid()})
					}
					t.Repl = append(t.Repl, rep)
				}
				s = t
			}
			l.Subtables = append(l.Subtables, s)
		}
		ll = append(ll, l)
	}
	f.Gsub = gen.Info(c, ll, gen.GsubTags, 2, false, "liga")
}

func c20Font(c *core.C) *sfnt.Font {
	o := &gen.FOpt{Kind: c.W(3, 3, 2), MinGlyphs: 1, MaxGlyphs: 40, Layout: c.P(1, 2), GsubTypes: []int{1, 3, 4}, GposTypes: []int{1}, NoCmap: c.P(1, 5)}
	if c.P(1, 4) {
		o.GsubTypes = []int{1, 2, 3, 4, 5, 6, 8}
	}
	if c.P(1, 100) {
		o.MinGlyphs, o.MaxGlyphs, o.Big = 1000, 1300, true
	}
	f := gen.Font(c, o)
	if c.P(9, 10) {
		c20Scramble(c, f)
	}
	if c.P(1, 3) {
		c20Cmap(c, f)
	}
	if c.P(1, 3) {
		c20Lookups(c, f)
	}
	return f
}

// c20Inside is true when all rules refer to existing glyphs.
func c20Inside(rules []nameRule, n int) bool {
	for _, rule := range rules {
		if int(rule.out) >= n {
			return false
		}
		for _, g := range rule.in {
			if int(g) >= n {
				return false
			}
		}
	}
	return true
}

func runC20(r *core.Run) {
	c := r.C
	runtime.SimSetClock(1700000000, 0)
	time.Local = time.UTC
	defer func() { time.Local = time.UTC }()

	if c.P(1, 5) {
		c20PostScript(r)
		return
	}

	var f, ref *sfnt.Font
	if c.P(1, 5) {
		r.Count("mode: file")
		data := makeFile(c, &gen.RawOpt{})
		var err error
		v, _ := core.Catch(func() { f, err = sfnt.Read(bytes.NewReader(data)) })
		if v != nil || err != nil || f == nil {
			r.Count("files rejected")
			return // C02
		}
		ref, err = sfnt.Read(bytes.NewReader(data))
		if err != nil {
			r.Violate("reread", "the second Read of the same file fails: %v", err)
			return
		}
		// glyph names inside the font
		if c.P(1, 2) {
			start := len(c.Rec)
			c20Scramble(c, f)
			c20Scramble(core.ReplayC(slices.Clone(c.Rec[start:])), ref)
		}
	} else {
		r.Count("mode: constructed")
		start := len(c.Rec)
		f = c20Font(c)
		ref = c20Font(core.ReplayC(slices.Clone(c.Rec[start:])))
	}
	n := f.NumGlyphs()
	if n == 0 {
		return
	}
	rules := c20Rules(ref.Gsub)
	if !c20Inside(rules, n) {
		r.Count("rules outside the font dropped")
		f.Gsub, ref.Gsub = nil, nil
		rules = nil
	}
	orig := c20Existing(ref)
	runes := map[glyph.ID][]rune{}
	if sub, err := ref.CMapTable.GetBest(); err == nil && sub != nil {
		lo, hi := sub.CodeRange()
		add := func(x rune) {
			if g := sub.Lookup(x); g != 0 {
				runes[g] = append(runes[g], x)
			}
		}
		switch sub := sub.(type) {
		case cmap.Format12:
			// the code range may be huge
			keys := make([]uint32, 0, len(sub))
			for x := range sub {
				keys = append(keys, x)
			}
			slices.Sort(keys)
			for _, x := range keys {
				if x <= 0x10FFFF {
					add(rune(x))
				} else {
					r.Count("characters outside of Unicode")
				}
			}
		default:
			for x := max(lo, 0); x <= min(hi, 0x10FFFF); x++ {
				add(x)
			}
		}
		for g := range runes {
			if int(g) >= n {
				r.Count("character maps with missing glyphs")
				break
			}
		}
	}
	r.NonTrivial = n > 1
	r.Logf("font: kind=%T glyphs=%d names=%q rules=%d mapped=%d", f.Outlines, n, clip(orig, 50), len(rules), len(runes))

	// the history
	var first []string
	for i, k := 0, c.R(1, 3); i < k; i++ {
		c01Env(r)
		var got []string
		if !r.Guard("MakeGlyphNames", func() { got = f.MakeGlyphNames() }) {
			return
		}
		if first == nil {
			first = slices.Clone(got)
			r.Logf("names: %q", clip(got, 50))
			if !c20Names(r, "MakeGlyphNames", orig, got, runes, rules) {
				return
			}
		} else if !slices.Equal(first, got) {
			j := 0
			for j < len(first) && j < len(got) && first[j] == got[j] {
				j++
			}
			r.Violate("unstable/MakeGlyphNames", "asking again gives other names, starting at glyph %d: %q and %q", j, clip(first[j:], 8), clip(got[j:], 8))
			return
		}
		// the result belongs to the caller
		for j := range got {
			got[j] = "scribble"
		}
		if d := snap.Diff(ref, f); d != "" {
			r.Violate("changed/MakeGlyphNames", "MakeGlyphNames changes the font: %s", d)
			return
		}
	}
	// the same question on another copy of the same font
	var other []string
	if !r.Guard("MakeGlyphNames", func() { other = ref.MakeGlyphNames() }) {
		return
	}
	if !slices.Equal(first, other) {
		r.Violate("unstable/copy", "two copies of one font get different names: %q and %q", clip(first, 20), clip(other, 20))
		return
	}

	o, isCFF := f.Outlines.(*cff.Outlines)
	simple := isCFF && c.P(1, 2)
	if simple {
		c20Simple(r, f, o, orig, runes)
		if r.Viol != nil {
			return
		}
		runes, rules = nil, nil
		first = c20Existing(f)
	}

	for i, k := 0, c.R(1, 3); i < k && r.Viol == nil; i++ {
		c01Env(r)
		if !r.Guard("EnsureGlyphNames", func() { f.EnsureGlyphNames() }) {
			return
		}
		for g := 0; g < n; g++ {
			var nm string
			if !r.Guard("GlyphName", func() { nm = f.GlyphName(glyph.ID(g)) }) {
				return
			}
			if nm != first[g] {
				r.Violate("installed", "after EnsureGlyphNames, glyph %d is called %q instead of %q", g, nm, first[g])
				return
			}
		}
		var got []string
		if !r.Guard("MakeGlyphNames", func() { got = f.MakeGlyphNames() }) {
			return
		}
		if !slices.Equal(first, got) {
			r.Violate("unstable/installed", "after EnsureGlyphNames, MakeGlyphNames gives other names: %q, installed are %q", clip(got, 20), clip(first, 20))
			return
		}
		for j := range got {
			got[j] = "scribble"
		}
		if isCFF && o.ROS != nil {
			continue
		}
		// the names survive in a file, if the file format can hold them
		if i == 0 && c.P(1, 4) {
			c20File(r, f, first)
		}
	}
	if isCFF && !simple && c.P(1, 2) {
		r.Count("simple after installed names")
		c20Simple(r, f, o, first, runes)
	}
}

// c20File checks that installed names survive a restart.
func c20File(r *core.Run, f *sfnt.Font, want []string) {
	for _, s := range want {
		if len(s) > 63 || strings.Trim(s, "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ._") != "" {
			return
		}
	}
	if o, ok := f.Outlines.(*cff.Outlines); ok {
		for g := range o.Glyphs {
			if o.FDSelect(glyph.ID(g)) != 0 {
				return
			}
		}
		if o.Private == nil || len(o.Private) != 1 {
			return
		}
	}
	var buf bytes.Buffer
	var err error
	v, _ := core.Catch(func() { _, err = f.Write(&buf) })
	if v != nil || err != nil {
		return // C01
	}
	g, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
	if err != nil {
		return // C01
	}
	var got []string
	if !r.Guard("MakeGlyphNames", func() { got = g.MakeGlyphNames() }) {
		return
	}
	r.Count("installed names written and read back")
	if !slices.Equal(got, want) {
		r.Violate("installed/file", "installed names are lost in the file: %q, want %q", clip(got, 20), clip(want, 20))
	}
}

// c20Simple converts the font to a simple font, twice.
func c20Simple(r *core.Run, f *sfnt.Font, o *cff.Outlines, orig []string, runes map[glyph.ID][]rune) {
	c := r.C
	n := len(o.Glyphs)
	cid := o.ROS != nil
	var text map[glyph.ID]string
	if c.P(3, 4) {
		text = map[glyph.ID]string{}
		for i := 0; i < n; i++ {
			switch c.W(3, 3, 2, 1, 1) {
			case 0:
				if rr := runes[glyph.ID(i)]; len(rr) > 0 {
					text[glyph.ID(i)] = string(rr[c.N(len(rr))])
				}
			case 1:
				text[glyph.ID(i)] = []string{"A", "B", "a", "A", "ab", "ffi", "\ufb01", "x", "é", "日本", "\U0001F600", "AV", "\u1e9e"}[c.N(13)]
			case 2:
				text[glyph.ID(i)] = ""
			case 3:
				text[glyph.ID(i)] = strings.Repeat("abcdefgh ", c.R(1, 5))
			}
		}
		if c.P(1, 4) {
			text[glyph.ID(n+c.N(5))] = "Q"
		}
	}
	textCopy := map[glyph.ID]string{}
	for k, v := range text {
		textCopy[k] = v
	}
	if !r.Guard("MakeSimple", func() { o.MakeSimple(text) }) {
		return
	}
	what := "MakeSimple"
	if cid {
		what = "MakeSimple(CID)"
		r.Count("CID-keyed fonts converted")
	}
	if o.ROS != nil || o.GIDToCID != nil || o.IsCIDKeyed() {
		r.Violate("cid/"+what, "%s: the result is still CID-keyed", what)
		return
	}
	for k, v := range text {
		if textCopy[k] != v {
			r.Violate("text/"+what, "%s: changes the text of glyph %d", what, k)
			return
		}
	}
	got := c20Existing(f)
	r.Logf("%s: %q (from %q, text %q)", what, clip(got, 40), clip(orig, 40), fmt.Sprint(len(text)))
	if !c20Basic(r, what, n, got) {
		return
	}
	count := map[string]int{}
	for _, s := range orig {
		count[s]++
	}
	holder := map[string]bool{}
	for _, s := range got {
		holder[s] = true
		if !names.IsValid(s) {
			r.Violate("invalid/"+what, "%s: %q is not a valid glyph name", what, s)
			return
		}
	}
	for i := 1; i < n; i++ {
		s := orig[i]
		if s != "" && s != ".notdef" && count[s] == 1 && names.IsValid(s) && got[i] != s {
			r.Violate("kept/"+what, "%s: the existing name %q of glyph %d was replaced by %q", what, s, i, got[i])
			return
		}
		if got[i] == s {
			continue
		}
		t := text[glyph.ID(i)]
		base := ""
		if t != "" {
			base = names.FromUnicode(t)
			rest, ok := strings.CutPrefix(got[i], base)
			if ok && isSuffix(rest) {
				r.Count("names: text")
				continue
			}
		}
		if !isNumbered(got[i]) {
			r.Violate("unexplained/"+what, "%s: nothing explains the name %q of glyph %d (was %q, text %q)", what, got[i], i, s, t)
			return
		}
		if base != "" && names.IsValid(base) && !holder[base] {
			r.Violate("not-inferred/"+what, "%s: glyph %d with text %q is called %q, but no glyph is called %q", what, i, t, got[i], base)
			return
		}
		r.Count("names: placeholder")
	}
	// the encoding agrees with the names
	if d := snap.Diff(cff.StandardEncoding(o.Glyphs), o.Encoding); d != "" {
		r.Violate("encoding/"+what, "%s: not the standard encoding: %s", what, d)
		return
	}
	var again []string
	if !r.Guard("MakeSimple", func() { o.MakeSimple(text); again = c20Existing(f) }) {
		return
	}
	if !slices.Equal(again, got) {
		r.Violate("unstable/"+what, "%s: converting again gives other names: %q and %q", what, clip(got, 20), clip(again, 20))
		return
	}
	var mk []string
	if !r.Guard("MakeGlyphNames", func() { mk = f.MakeGlyphNames() }) {
		return
	}
	if !slices.Equal(mk, got) {
		r.Violate("unstable/MakeGlyphNames", "MakeGlyphNames changes the names made by MakeSimple: %q and %q", clip(got, 20), clip(mk, 20))
	}
}

func clip(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// c20PostScript checks the PostScript font name.
func c20PostScript(r *core.Run) {
	c := r.C
	r.Count("mode: PostScript name")
	f := &sfnt.Font{}
	var fam []byte
	for i, k := 0, c.Size(40); i < k; i++ {
		switch c.W(4, 3, 2, 2) {
		case 0:
			fam = append(fam, byte(c.R(33, 126)))
		case 1:
			fam = append(fam, "()<>[]{}/% \t\n"[c.N(13)])
		case 2:
			fam = append(fam, string([]rune{rune(c.N(0x250)), rune(c.N(0x3000)), 0x1F600, 0xFB01, 0xA0}[c.N(5)])...)
		case 3:
			fam = append(fam, byte(c.N(256)))
		}
	}
	f.FamilyName = string(fam)
	if c.P(1, 6) {
		f.FamilyName = gen.Word(c)
	}
	f.Width = os2.Width(c.N(12))
	if c.P(1, 10) {
		f.Width = os2.Width(c.N(65536))
	}
	f.Weight = os2.Weight([]int{0, 1, 50, 100, 200, 300, 350, 400, 450, 500, 600, 700, 800, 900, 950, 1000, 1001, 65535}[c.N(18)])
	if c.P(1, 3) {
		f.Weight = os2.Weight(c.N(65536))
	}
	f.IsBold, f.IsItalic, f.IsOblique, f.IsRegular = c.P(1, 2), c.P(1, 2), c.P(1, 2), c.P(1, 2)
	f.IsScript, f.IsSerif = c.P(1, 2), c.P(1, 2)
	r.NonTrivial = true
	var name string
	if !r.Guard("PostScriptName", func() { name = f.PostScriptName() }) {
		return
	}
	r.Logf("family %q width %d weight %d: %q", f.FamilyName, f.Width, f.Weight, name)
	for i := 0; i < len(name); i++ {
		if ch := name[i]; ch < 33 || ch > 126 || strings.IndexByte("()<>[]{}/%", ch) >= 0 {
			r.Violate("postscript/char", "PostScriptName() = %q contains %q (family name %q)", name, ch, f.FamilyName)
			return
		}
	}
	if name == "" {
		r.Violate("postscript/empty", "PostScriptName() is empty (family name %q)", f.FamilyName)
		return
	}
	// permitted characters of the family name are kept
	want := strings.Map(func(x rune) rune {
		if x < 33 || x > 126 || strings.ContainsRune("()<>[]{}/%", x) {
			return -1
		}
		return x
	}, f.FamilyName)
	if !strings.HasPrefix(name, want) {
		r.Count("PostScript names which are not a prefix")
	}
	c01Env(r)
	for i := 0; i < 2; i++ {
		var again string
		if !r.Guard("PostScriptName", func() { again = f.PostScriptName() }) {
			return
		}
		if again != name {
			r.Violate("postscript/unstable", "PostScriptName() = %q, then %q", name, again)
			return
		}
	}
}
