package props

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/text/language"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"

	"verif/sim/worker/core"
	"verif/sim/worker/gen"
	"verif/sim/worker/snap"
)

func init() {
	register(&core.Prop{ID: "C16", Run: runC16, Budget: 500_000_000, HeapMax: 3 << 30,
		Gaps: []uint64{0, 2, 8, 40, 200, 1500}, Race: true, MapFixed: true})
}

// yieldWriter is an output device which lets other goroutines run at every
// write.
type yieldWriter struct{ bytes.Buffer }

func (w *yieldWriter) Write(p []byte) (int, error) {
	runtime.SimYield()
	n, err := w.Buffer.Write(p)
	runtime.SimYield()
	return n, err
}

// yieldReader is an input device of the same kind.
type yieldReader struct{ *bytes.Reader }

func (r yieldReader) ReadAt(p []byte, off int64) (int, error) {
	runtime.SimYield()
	return r.Reader.ReadAt(p, off)
}

// c16Args are the arguments shared by all goroutines.
type c16Args struct {
	subsets  [][]glyph.ID
	texts    []string
	langs    []language.Tag
	features []map[string]bool
	extra    []byte
	ctxGsub  []gtab.LookupIndex
	ctxGpos  []gtab.LookupIndex
	seqs     [][]glyph.Info
	gids     []glyph.ID
	renumber map[glyph.ID]glyph.ID
	glyphTxt map[glyph.ID]string
	dsl      []string
	file     []byte // an encoded font, for goroutines which load their own
}

type c16Op struct {
	name string
	run  func(f *sfnt.Font) any
}

type c16Call struct {
	op   c16Op
	font int
}

// runC16 lets several goroutines use a font at the same time, and compares
// every result with the result of the same call made alone on a fresh copy of
// the font.
func runC16(r *core.Run) {
	c := r.C
	nFonts := 1
	if c.P(1, 4) {
		nFonts = 2
	}
	// In a cold run, the concurrent calls are the first use of the library
	// in the simulation (and in the process, if this is its first run).
	cold := c.P(1, 3)
	var mk []func() *sfnt.Font
	for i := 0; i < nFonts; i++ {
		mk = append(mk, c16Font(r, cold))
	}
	args := c16Arguments(r, mk, cold)
	if args == nil {
		return
	}
	shared := make([]*sfnt.Font, nFonts)
	for i := range mk {
		shared[i] = mk[i]()
	}

	nG := c.R(2, 4)
	maxOps := 3
	if r.Tier == "thorough" {
		maxOps = 6
	}
	same := c.P(1, 4) || cold && c.P(1, 2) // all goroutines do the same
	calls := make([][]c16Call, nG)
	for g := range calls {
		if same && g > 0 {
			calls[g] = calls[0]
			continue
		}
		for i, k := 0, c.R(1, maxOps); i < k; i++ {
			fi := c.N(nFonts)
			calls[g] = append(calls[g], c16Call{c16Draw(r, shared[fi], args), fi})
		}
	}
	for g := range calls {
		var nn []string
		for _, cl := range calls[g] {
			nn = append(nn, fmt.Sprintf("%s(%d)", cl.op.name, cl.font))
			r.Count("op: " + cl.op.name)
		}
		r.Logf("goroutine %d: %s", g, strings.Join(nn, ", "))
	}

	solo := make([][]uint64, nG)
	soloText := make([][]string, nG)
	runSolo := func() {
		for g := range calls {
			solo[g] = make([]uint64, len(calls[g]))
			soloText[g] = make([]string, len(calls[g]))
			for i, cl := range calls[g] {
				if same && g > 0 {
					solo[g][i], soloText[g][i] = solo[0][i], soloText[0][i]
					continue
				}
				solo[g][i], soloText[g][i] = c16Do(cl.op, mk[cl.font]())
			}
		}
	}

	before := make([]uint64, nFonts)
	for i, f := range shared {
		before[i] = snap.HashExported(f)
	}
	argsBefore := snap.HashExported(args.subsets, args.features, args.seqs, args.file, args.extra, args.ctxGsub, args.ctxGpos, args.renumber, args.glyphTxt)

	// The calls which run alone come first or last, so that state left
	// behind by either is seen by the other.
	soloFirst := !cold && c.P(1, 2)
	if soloFirst {
		runSolo()
	}

	conc := make([][]uint64, nG)
	concText := make([][]string, nG)
	for g := range calls {
		conc[g] = make([]uint64, len(calls[g]))
		concText[g] = make([]string, len(calls[g]))
	}
	var wg sync.WaitGroup
	for g := range calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, cl := range calls[g] {
				conc[g][i], concText[g][i] = c16Do(cl.op, shared[cl.font])
				runtime.SimYield()
			}
		}()
	}
	wg.Wait()
	r.NonTrivial = true

	for i, f := range shared {
		if after := snap.HashExported(f); after != before[i] {
			d := snap.Diff(mk[i](), f)
			r.Violate("modified", "the shared font was modified: %s", d)
		}
	}
	if argsAfter := snap.HashExported(args.subsets, args.features, args.seqs, args.file, args.extra, args.ctxGsub, args.ctxGpos, args.renumber, args.glyphTxt); argsAfter != argsBefore {
		r.Violate("args-modified", "the arguments shared by the calls were modified")
	}
	if !soloFirst {
		runSolo()
	}
	for g := range calls {
		for i, cl := range calls[g] {
			r.Ev(conc[g][i])
			if conc[g][i] != solo[g][i] {
				r.Violate("result/"+cl.op.name, "goroutine %d, call %d: %s gave %s (%#x), but %s (%#x) when run alone",
					g, i, cl.op.name, concText[g][i], conc[g][i], soloText[g][i], solo[g][i])
			}
		}
	}
	for g := range calls {
		for i := range calls[g] {
			if strings.HasPrefix(soloText[g][i], "panic") {
				r.Count("calls which panic when run alone")
			}
		}
	}
	r.Add("calls made concurrently", int64(len(calls)))
}

// c16Do makes one call and fingerprints the result.
func c16Do(op c16Op, f *sfnt.Font) (h uint64, text string) {
	var res any
	v, where := core.Catch(func() { res = op.run(f) })
	if v != nil {
		if !strings.HasPrefix(where, "seehuhn.de/") {
			panic(fmt.Sprintf("harness: %s: %v in %s", op.name, v, where))
		}
		text = fmt.Sprintf("panic %v in %s", v, where)
		return snap.Hash(text), text
	}
	h = snap.HashExported(res)
	return h, "a result"
}

// c16Font returns a function which makes identical, unrelated copies of a font.
func c16Font(r *core.Run, cold bool) func() *sfnt.Font {
	c := r.C
	chars := append(append([]rune{}, gen.DefaultChars...), 0xE4, 0x301, 0x391)
	o := &gen.FOpt{
		Kind: c.N(gen.NumKinds), MinGlyphs: 2, MaxGlyphs: c.R(4, 14),
		Chars: chars, Required: c.P(1, 3), Plain: c.P(1, 2), MaxLookup: 3,
	}
	if c.P(1, 20) {
		o.Chars = nil
	}
	mode := c.W(3, 2, 1)
	switch mode {
	case 0: // subsetting works
		o.Layout = c.P(1, 2)
		o.GsubTypes = []int{1, 4}
		o.GposTypes = []int{2}
	case 1:
		o.Layout = true
	case 2:
		o.Chars, o.Plain = nil, false
	}
	noGdef := mode == 0
	mac := o.Kind == gen.Glyf && c.P(1, 5)
	if mac {
		o.MinGlyphs, o.MaxGlyphs, o.Big, o.AllNames = 258, 258, true, true
	}
	dropNames := c.N(4)
	seed := c.U(1 << 60)
	readBack := !cold && c.P(1, 2)
	build := func() *sfnt.Font {
		f := gen.Font(core.NewC(seed), o)
		if noGdef {
			f.Gdef = nil
			simplifySubsettable(f)
		}
		if mac {
			f.Outlines.(*glyf.Outlines).Names = append([]string(nil), macNames...)
		}
		switch out := f.Outlines.(type) {
		case *glyf.Outlines:
			if dropNames == 1 && len(out.Names) > 3 {
				out.Names[2] = ""
				out.Names[len(out.Names)-1] = out.Names[1]
			}
		case *cff.Outlines:
			if dropNames == 1 && len(out.Glyphs) > 3 && out.ROS == nil {
				out.Glyphs[2].Name = ""
				out.Glyphs[len(out.Glyphs)-1].Name = out.Glyphs[1].Name
			}
		}
		return f
	}
	r.Logf("font: kind=%d mode=%d glyphs<=%d mac=%v dropNames=%d readBack=%v seed=%x", o.Kind, mode, o.MaxGlyphs, mac, dropNames, readBack, seed)
	if !readBack {
		return build
	}
	buf := &bytes.Buffer{}
	var err error
	v, _ := core.Catch(func() { _, err = build().Write(buf) })
	if v != nil || err != nil {
		r.Count("font not writable")
		return build
	}
	data := buf.Bytes()
	v, _ = core.Catch(func() { _, err = sfnt.Read(bytes.NewReader(data)) })
	if v != nil || err != nil {
		r.Count("font not readable")
		return build
	}
	return func() *sfnt.Font {
		f, err := sfnt.Read(bytes.NewReader(data))
		if err != nil {
			core.Harness("read failed the second time: %v", err)
		}
		return f
	}
}

// simplifySubsettable removes the subtables which Subset does not support.
func simplifySubsettable(f *sfnt.Font) {
	if f.Gsub != nil {
		for _, l := range f.Gsub.LookupList {
			for i, s := range l.Subtables {
				if s2, ok := s.(*gtab.Gsub1_2); ok {
					l.Subtables[i] = &gtab.Gsub1_1{Cov: s2.Cov.ToSet(), Delta: 0}
				}
			}
		}
	}
	if f.Gpos != nil {
		for _, l := range f.Gpos.LookupList {
			for i, s := range l.Subtables {
				if _, ok := s.(*gtab.Gpos2_2); ok {
					l.Subtables[i] = gtab.Gpos2_1{{Left: 1, Right: 1}: {First: &gtab.GposValueRecord{XAdvance: -7}}}
				}
			}
		}
	}
}

var c16Langs = []string{"und", "en", "de", "tr", "ro", "ru", "sr", "el", "he", "en-GB", "zh-Hant", "de-Latn-x-latn-deu"}
var c16Texts = []string{"fi", "AVAVA", "Hffi x", "ffl", "To be, or not", "a\u0301e\u0308", "\u0391\u03b1", "", "x", "AAAAAAAA", "iiffiiff", "\U0001F600a", "qed. -12"}

func c16Arguments(r *core.Run, mk []func() *sfnt.Font, cold bool) *c16Args {
	c := r.C
	a := &c16Args{renumber: map[glyph.ID]glyph.ID{}, glyphTxt: map[glyph.ID]string{}}
	n := 1 << 16
	for _, m := range mk {
		n = min(n, m().NumGlyphs())
	}
	// two subsets in one array: the shorter one is a prefix of the longer
	all := make([]glyph.ID, 1, n)
	seen := map[glyph.ID]bool{0: true}
	for i, k := 0, c.N(6); i < k; i++ {
		g := glyph.ID(c.N(n))
		if !seen[g] {
			seen[g] = true
			all = append(all, g)
		}
	}
	a.subsets = [][]glyph.ID{all, all[:c.R(1, len(all))], append([]glyph.ID(nil), all...)}
	for i := 0; i < n; i++ {
		a.gids = append(a.gids, glyph.ID(i))
		a.renumber[glyph.ID(i)] = glyph.ID(n - 1 - i)
		if i%2 == 1 {
			a.glyphTxt[glyph.ID(i)] = "A"
		}
	}
	for i, k := 0, c.R(1, 4); i < k; i++ {
		a.texts = append(a.texts, c16Texts[c.N(len(c16Texts))])
	}
	for i := 0; i < 3; i++ {
		a.langs = append(a.langs, language.MustParse(c16Langs[c.N(len(c16Langs))]))
	}
	a.features = []map[string]bool{nil, {}, {"liga": true, "kern": true, "test": true}, gtab.GsubDefaultFeatures, gtab.GposDefaultFeatures}
	a.extra = c.Bytes(c.R(0, 30))
	for i, k := 0, c.R(1, 4); i < k; i++ {
		a.ctxGsub = append(a.ctxGsub, gtab.LookupIndex(c.N(4)))
		a.ctxGpos = append(a.ctxGpos, gtab.LookupIndex(c.N(4)))
	}
	for i := 0; i < 3; i++ {
		var seq []glyph.Info
		for j, k := 0, c.N(10); j < k; j++ {
			seq = append(seq, glyph.Info{GID: glyph.ID(c.N(n)), Text: []rune{rune('a' + j)}, Advance: funit.Int16(100 * j)})
		}
		a.seqs = append(a.seqs, seq)
	}
	a.dsl = []string{
		"GSUB1: A -> x\nGSUB4: f i -> x",
		"GSUB1: \"A\" -> \"x\"",
		"GPOS1: [A x] -> y+10\nGPOS2: A x -> dx-5",
		"class :c: = [A x H]\nGSUB6: A | x | H -> 1@0\nGSUB1: x -> A",
		"nonsense",
	}
	if cold {
		return a
	}
	buf := &bytes.Buffer{}
	var err error
	v, _ := core.Catch(func() { _, err = mk[0]().Write(buf) })
	if v == nil && err == nil {
		a.file = buf.Bytes()
	}
	return a
}

func copySeq(seq []glyph.Info) []glyph.Info {
	res := make([]glyph.Info, len(seq), len(seq)+8)
	for i, g := range seq {
		g.Text = append([]rune(nil), g.Text...)
		res[i] = g
	}
	return res
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// c16Draw draws one read-only call.
func c16Draw(r *core.Run, f *sfnt.Font, a *c16Args) c16Op {
	c := r.C
	switch c.W(5, 4, 5, 3, 2, 2, 4, 3, 4, 5, 4, 4, 2, 3, 2, 4, 1) {
	case 0:
		return c16Op{"Write", func(f *sfnt.Font) any {
			w := &yieldWriter{}
			n, err := f.Write(w)
			return []any{n, errText(err), w.Bytes()}
		}}
	case 1:
		if f.IsCFF() {
			return c16Op{"WriteOpenTypeCFFPDF", func(f *sfnt.Font) any {
				w := &yieldWriter{}
				err := f.WriteOpenTypeCFFPDF(w)
				return []any{errText(err), w.Bytes()}
			}}
		}
		var ex []any
		switch c.N(3) {
		case 1:
			ex = []any{"cmap", a.extra}
		case 2:
			ex = []any{"test", a.extra, "prep", a.extra}
		}
		return c16Op{"WriteTrueTypePDF", func(f *sfnt.Font) any {
			w := &yieldWriter{}
			n, err := f.WriteTrueTypePDF(w, ex...)
			return []any{n, errText(err), w.Bytes()}
		}}
	case 2:
		gg := a.subsets[c.N(len(a.subsets))]
		write := c.N(3)
		return c16Op{"Subset", func(f *sfnt.Font) any {
			s := f.Subset(gg)
			h := snap.HashExported(s)
			w := &yieldWriter{}
			switch write {
			case 1:
				_, err := s.Write(w)
				return []any{h, errText(err), w.Bytes()}
			case 2:
				s.FamilyName = "ABCDEF+" + s.FamilyName
				s.CMapTable, s.Gsub, s.Gpos, s.Gdef = nil, nil, nil, nil
				_, err := s.Write(w)
				return []any{h, errText(err), w.Bytes()}
			}
			return h
		}}
	case 3:
		how := c.N(4)
		return c16Op{"Clone", func(f *sfnt.Font) any {
			g := f.Clone()
			switch how {
			case 1:
				g.FamilyName = "Other"
				g.InstallCMap(cmap.Format4{65: 1})
				g.Gsub, g.Gpos, g.Gdef = nil, nil, nil
			case 2:
				g.IsBold = !g.IsBold
				g.CMapTable = nil
				g.UnitsPerEm = 512
				g.FontMatrix = matrix.Matrix{1.0 / 512, 0, 0, 1.0 / 512, 0, 0}
			case 3:
				if o, ok := g.Outlines.(*glyf.Outlines); ok {
					o2 := *o
					o2.Names = nil
					g.Outlines = &o2
				}
			}
			w := &yieldWriter{}
			_, err := g.Write(w)
			return []any{snap.HashExported(g), errText(err), w.Bytes()}
		}}
	case 4:
		return c16Op{"BBox", func(f *sfnt.Font) any {
			res := []any{f.FontBBox(), f.FontBBoxPDF(), f.GlyphBBoxes()}
			for i := range f.NumGlyphs() {
				res = append(res, f.GlyphBBox(glyph.ID(i)), f.Outlines.GlyphBBoxPDF(f.FontMatrix, glyph.ID(i)))
			}
			return res
		}}
	case 5:
		return c16Op{"Widths", func(f *sfnt.Font) any {
			res := []any{f.Widths(), f.WidthsPDF(), f.WidthsMapPDF(), f.IsFixedPitch()}
			for i := range f.NumGlyphs() {
				res = append(res, f.GlyphWidth(glyph.ID(i)), f.GlyphWidthPDF(glyph.ID(i)))
			}
			return res
		}}
	case 6:
		return c16Op{"MakeGlyphNames", func(f *sfnt.Font) any {
			res := []any{f.MakeGlyphNames()}
			for i := range f.NumGlyphs() {
				res = append(res, f.GlyphName(glyph.ID(i)))
			}
			return res
		}}
	case 7:
		return c16Op{"GetFontInfo", func(f *sfnt.Font) any {
			info := f.GetFontInfo()
			h := snap.HashExported(info)
			info.FontName = "x"
			info.FontMatrix = matrix.Identity
			return []any{h, f.PostScriptName(), f.FullName(), f.Subfamily(), f.BuiltinEncoding(), f.NumGlyphs(), f.IsGlyf(), f.IsCFF()}
		}}
	case 8:
		if !f.IsCFF() {
			return c16Op{"Glyf", func(f *sfnt.Font) any {
				o := f.Outlines.(*glyf.Outlines)
				var res []any
				enc := o.Glyphs.Encode()
				res = append(res, enc.GlyfData, enc.LocaData, enc.LocaFormat)
				for _, g := range o.Glyphs {
					if g == nil {
						continue
					}
					res = append(res, g.Components(), snap.HashExported(g.FixComponents(a.renumber)))
					if s, ok := g.Data.(glyf.SimpleGlyph); ok {
						info, err := s.Decode()
						res = append(res, snap.HashExported(info), errText(err))
					}
				}
				return res
			}}
		}
		how := c.N(3)
		gg := a.subsets[c.N(len(a.subsets))]
		return c16Op{"AsCFF", func(f *sfnt.Font) any {
			cf := f.AsCFF()
			w := &yieldWriter{}
			switch how {
			case 0:
				err := cf.Write(w)
				return []any{errText(err), w.Bytes()}
			case 1:
				g := cf.Clone()
				g.FontInfo.FontName = "Other"
				g.Outlines = g.Outlines.Subset(gg)
				err := g.Write(w)
				return []any{errText(err), w.Bytes()}
			default:
				res := []any{cf.FontBBoxPDF(), cf.Widths(), cf.WidthsPDF(), cf.WidthsMapPDF(), cf.BBox(), cff.StandardEncoding(cf.Glyphs), cf.Outlines.BuiltinEncoding()}
				for i := range cf.NumGlyphs() {
					res = append(res, cf.GlyphWidthPDF(glyph.ID(i)), cf.Glyphs[i].String(), cf.Glyphs[i].Extent())
				}
				return res
			}
		}}
	case 9:
		lang := a.langs[c.N(len(a.langs))]
		fs, fp := a.features[c.N(len(a.features))], a.features[c.N(len(a.features))]
		return c16Op{"Layout", func(f *sfnt.Font) any {
			l, err := f.NewLayouter(lang, fs, fp)
			if err != nil {
				return err.Error()
			}
			var res []any
			for _, t := range a.texts {
				res = append(res, snap.HashExported(l.Layout(t)))
				runtime.SimYield()
			}
			return res
		}}
	case 10:
		return c16Op{"Apply", func(f *sfnt.Font) any {
			var res []any
			for k, info := range []*gtab.Info{f.Gsub, f.Gpos} {
				if info == nil {
					continue
				}
				ll := a.ctxGsub
				if k == 1 {
					ll = a.ctxGpos
				}
				ctx := gtab.NewContext(info.LookupList, f.Gdef, ll)
				for _, s := range a.seqs {
					out := ctx.Apply(copySeq(s))
					res = append(res, snap.HashExported(out))
					runtime.SimYield()
				}
			}
			return res
		}}
	case 11:
		k := c.N(len(a.dsl) + 2)
		return c16Op{"Explain", func(f *sfnt.Font) any {
			var text string
			switch {
			case k < len(a.dsl):
				text = a.dsl[k]
			case k == len(a.dsl):
				if f.Gsub == nil {
					return nil
				}
				text = builder.ExplainGsub(f)
			default:
				if f.Gpos == nil {
					return nil
				}
				text = strings.Join(builder.ExplainGpos(f), "\n")
			}
			ll, err := builder.Parse(f, text)
			return []any{text, snap.HashExported(ll), errText(err)}
		}}
	case 12:
		return c16Op{"Cmap", func(f *sfnt.Font) any {
			var keys []cmap.Key
			for k := range f.CMapTable {
				keys = append(keys, k)
			}
			sort.Slice(keys, func(i, j int) bool {
				return keys[i].PlatformID*100+keys[i].EncodingID < keys[j].PlatformID*100+keys[j].EncodingID
			})
			res := []any{f.CMapTable.Encode()}
			look := func(s cmap.Subtable, err error) {
				res = append(res, errText(err))
				if s == nil {
					return
				}
				lo, hi := s.CodeRange()
				res = append(res, lo, hi, s.Encode(0))
				for x := rune(0); x < 128; x++ {
					res = append(res, s.Lookup(x))
				}
				for x := lo; x <= hi; x += (hi-lo)/16 + 1 {
					res = append(res, s.Lookup(x))
				}
			}
			look(f.CMapTable.GetBest())
			for _, k := range keys {
				look(f.CMapTable.Get(k))
			}
			return res
		}}
	case 13:
		lang := a.langs[c.N(len(a.langs))]
		ft := a.features[c.N(len(a.features))]
		return c16Op{"Tables", func(f *sfnt.Font) any {
			res := []any{f.Gsub.FindLookups(lang, ft), f.Gpos.FindLookups(lang, ft)}
			if f.Gsub != nil {
				res = append(res, f.Gsub.Encode())
			}
			if f.Gpos != nil {
				res = append(res, f.Gpos.Encode())
			}
			if f.Gdef != nil {
				res = append(res, f.Gdef.Encode())
			}
			for _, g := range a.gids {
				res = append(res, f.Gdef.IsMark(g))
			}
			return res
		}}
	case 14:
		return c16Op{"Sets", func(f *sfnt.Font) any {
			var res []any
			if f.Gdef != nil {
				res = append(res, f.Gdef.GlyphClass.Glyphs(), f.Gdef.GlyphClass.NumClasses(), f.Gdef.MarkAttachClass.Glyphs())
				for _, s := range f.Gdef.MarkGlyphSets {
					res = append(res, s.Glyphs(), s.ToTable())
				}
			}
			for _, info := range []*gtab.Info{f.Gsub, f.Gpos} {
				if info == nil {
					continue
				}
				for _, l := range info.LookupList {
					for _, s := range l.Subtables {
						switch s := s.(type) {
						case *gtab.Gsub1_1:
							res = append(res, s.Cov.Glyphs(), s.Cov.ToTable().Encode())
						case *gtab.Gsub4_1:
							res = append(res, s.Cov.Glyphs(), s.Cov.EncodeLen())
						case gtab.Gpos2_1:
							cov, adj := s.CovAndAdjust()
							res = append(res, cov, snap.HashExported(adj))
						}
					}
				}
			}
			return res
		}}
	case 15:
		how := c.N(3)
		return c16Op{"OwnFont", func(*sfnt.Font) any {
			// a font of its own, loaded and changed by this goroutine only
			if a.file == nil {
				return nil
			}
			g, err := sfnt.Read(yieldReader{bytes.NewReader(a.file)})
			if err != nil {
				return err.Error()
			}
			switch o := g.Outlines.(type) {
			case *cff.Outlines:
				if how == 1 {
					o.MakeSimple(a.glyphTxt)
				}
			case *glyf.Outlines:
				if how == 1 {
					o.Names = append([]string(nil), o.Names...)
					for i := range o.Names {
						if i%3 == 2 {
							o.Names[i] = ""
						}
					}
				}
			}
			if how > 0 {
				g.EnsureGlyphNames()
			}
			w := &yieldWriter{}
			_, err = g.Write(w)
			return []any{snap.HashExported(g), errText(err), w.Bytes()}
		}}
	default:
		return c16Op{"Hash", func(f *sfnt.Font) any { return snap.HashExported(f) }}
	}
}
