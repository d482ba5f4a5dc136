package props

import (
	"bytes"
	"io"
	"runtime"
	"strings"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/parser"
	"seehuhn.de/go/sfnt/post"

	"verif/sim/worker/core"
	"verif/sim/worker/gen"
)

func init() {
	register(&core.Prop{ID: "C02", Run: runC02, Budget: 2_500_000_000, HeapMax: 2 << 30})
}

// Bounds on one decoder call: fixed constant plus linear term.
const (
	c02Steps     = 150_000_000
	c02StepsByte = 2_000
	c02Alloc     = 768 << 20
	c02StepsLow  = 25_000_000 // decoders of tables which cannot share data between offsets
	c02AllocLow  = 96 << 20
	c02AllocByte = 8_000
	c02UseSteps  = 400_000_000 // use of a decoded value: generous, not judged
	c02UseAlloc  = 1500 << 20  // together with what came before
)

// decoder is one entry point for untrusted bytes.
type decoder struct {
	name   string
	weight int
	make   func(c *core.C, o *gen.RawOpt) []byte
	// read returns a function which exercises the decoded value (nil if
	// there is nothing to exercise).
	read func(c *core.C, data []byte) (use func(u *user), err error)
}

// user runs accessors of a decoded value, one at a time.
type user struct {
	r    *core.Run
	dec  string
	stop bool
	n    int
}

// do calls one accessor; it must not panic.
func (u *user) do(what string, f func()) {
	if u.stop || u.r.Viol != nil {
		return
	}
	u.n++
	runtime.SimSetBudget(runtime.SimSteps()+c02UseSteps, c02UseAlloc)
	v, where := core.Catch(f)
	if v == nil {
		return
	}
	if runtime.SimOver() != 0 {
		runtime.SimClearOver()
		u.r.Count("accessor cut off: " + what)
		u.stop = true
		return
	}
	if !strings.HasPrefix(where, "seehuhn.de/") {
		core.Harness("%s: %s: panic in %s: %v", u.dec, what, where, v)
	}
	u.r.Violate("use/"+u.dec+"/"+what+"/"+where, "%s: %s: panic: %.300v (in %s)", u.dec, what, v, where)
}

func runC02(r *core.Run) {
	c := r.C
	weights := make([]int, len(decoders))
	for i, d := range decoders {
		weights[i] = d.weight
	}
	d := decoders[c.W(weights...)]
	o := &gen.RawOpt{Room: 4000}
	if c.P(1, 4) {
		o.Heavy = true
		o.Room = []int{300, 3000, 20000, 60000, 200000}[c.N(5)]
	}
	data := d.make(c, o)
	var kinds []string
	nf := 0
	if !c.P(1, 4) {
		nf = c.R(1, 8)
		if c.P(1, 2) {
			nf = 1
		}
	}
	if nf > 0 {
		data, kinds = gen.Corrupt(c, data, nf)
	}
	if c.P(1, 8) && len(data) > 0 {
		data = data[:c.N(len(data))]
		kinds = append(kinds, "truncated")
	}
	for _, k := range kinds {
		r.Count("fault: " + k)
	}
	if nf == 0 {
		r.Count("inputs without faults")
	}
	r.Logf("%s: %d bytes, heavy=%v, faults %v", d.name, len(data), o.Heavy, kinds)

	s0, h0 := runtime.SimSteps(), uint64(runtime.SimHeap())
	n := uint64(len(data))
	bs, bh := bounds(d.name, n)
	runtime.SimSetBudget(s0+bs, h0+bh)
	var use func(u *user)
	var err error
	orig := append([]byte(nil), data...)
	ok := r.Guard(d.name, func() { use, err = d.read(c, data) })
	steps, heap := runtime.SimSteps()-s0, uint64(runtime.SimHeap())-h0
	if !ok {
		r.Viol.Msg += " [" + hexHead(orig) + "]"
		return
	}
	c02Measure(r, d.name, n, steps, heap)
	if err != nil {
		r.Count(d.name + ": rejected")
		r.Logf("error: %T", err)
		r.NonTrivial = true
		return
	}
	r.Count(d.name + ": accepted")
	if nf > 0 {
		r.Count(d.name + ": accepted with faults")
	}
	r.Logf("accepted")
	r.NonTrivial = true
	if use == nil {
		return
	}
	u := &user{r: r, dec: d.name}
	use(u)
	r.Add("accessor calls", int64(u.n))
}

func hexHead(b []byte) string {
	const hex = "0123456789abcdef"
	var s []byte
	for i, x := range b {
		if i >= 160 {
			s = append(s, "..."...)
			break
		}
		s = append(s, hex[x>>4], hex[x&15])
	}
	return string(s)
}

// c02Measure keeps track of how close accepted and rejected inputs come to
// the bounds.
func c02Measure(r *core.Run, name string, n, steps, heap uint64) {
	bucket := func(v uint64, lim ...uint64) int {
		for i, l := range lim {
			if v <= l {
				return i
			}
		}
		return len(lim)
	}
	sn := []string{"<=1%", "<=10%", "<=50%", ">50%"}
	bs, bh := bounds(name, n)
	r.Count("share of the step bound used: " + sn[bucket(steps, bs/100, bs/10, bs/2)])
	r.Count("share of the memory bound used: " + sn[bucket(heap, bh/100, bh/10, bh/2)])
}

// bounds gives the number of steps and bytes one decoder call may use.
func bounds(name string, n uint64) (steps, alloc uint64) {
	switch name {
	case "sfnt.Read", "cff.Read", "gtab.Read(GSUB)", "gtab.Read(GPOS)", "gdef.Read", "name.Decode":
		return c02Steps + c02StepsByte*n, c02Alloc + c02AllocByte*n
	}
	return c02StepsLow + c02StepsByte*n, c02AllocLow + c02AllocByte*n
}

// c02Sub starts the accounting for one more call of a small decoder.
func c02Sub(n uint64) {
	bs, bh := bounds("", n)
	runtime.SimSetBudget(runtime.SimSteps()+bs, uint64(runtime.SimHeap())+bh)
}

// someRunes are looked up in decoded character maps.
func someRunes(c *core.C) []rune {
	rr := []rune{0, 1, 'A', 0x7F, 0xFF, 0x100, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF}
	for i := 0; i < 6; i++ {
		rr = append(rr, rune(c.N(0x110000)))
	}
	return rr
}

func useSubtable(c *core.C, u *user, what string, s cmap.Subtable) {
	rr := someRunes(c)
	u.do(what+".Lookup", func() {
		for _, x := range rr {
			s.Lookup(x)
		}
	})
	u.do(what+".CodeRange", func() {
		lo, hi := s.CodeRange()
		s.Lookup(lo)
		s.Lookup(hi)
	})
	u.do(what+".Encode", func() { s.Encode(0) })
}

func useCmap(c *core.C, u *user, t cmap.Table) {
	u.do("cmap.GetBest", func() {
		s, err := t.GetBest()
		if err == nil {
			useSubtable(c, u, "GetBest", s)
		}
	})
	keys := sortedKeys(t)
	if len(keys) > 12 {
		keys = keys[:12]
	}
	for _, k := range keys {
		var s cmap.Subtable
		var err error
		u.do("cmap.Get", func() { s, err = t.Get(k) })
		if err == nil && s != nil {
			useSubtable(c, u, "Get", s)
		}
		s = nil
		u.do("cmap.GetNoLang", func() { s, err = t.GetNoLang(k.PlatformID, k.EncodingID) })
		if err == nil && s != nil {
			useSubtable(c, u, "GetNoLang", s)
		}
	}
	u.do("cmap.Encode", func() { t.Encode() })
}

func sortedKeys(t cmap.Table) []cmap.Key {
	var keys []cmap.Key
	for k := range t {
		keys = append(keys, k)
	}
	less := func(a, b cmap.Key) bool {
		if a.PlatformID != b.PlatformID {
			return a.PlatformID < b.PlatformID
		}
		if a.EncodingID != b.EncodingID {
			return a.EncodingID < b.EncodingID
		}
		return a.Language < b.Language
	}
	for i := range keys {
		for j := i; j > 0 && less(keys[j], keys[j-1]); j-- {
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
	return keys
}

func useGlyphs(u *user, gg glyf.Glyphs) {
	for i := range gg {
		g := gg[i]
		if g == nil {
			u.do("Glyph.Components(nil)", func() { g.Components() })
			continue
		}
		if s, ok := g.Data.(glyf.SimpleGlyph); ok {
			u.do("SimpleGlyph.Decode", func() { s.Decode() })
		}
		if s, ok := g.Data.(*glyf.SimpleGlyph); ok {
			u.do("SimpleGlyph.Decode", func() { s.Decode() })
		}
		u.do("Glyph.Components", func() { g.Components() })
		if i > 200 || u.stop {
			break
		}
	}
	u.do("Glyphs.Encode", func() { gg.Encode() })
}

func useInfo(c *core.C, u *user, what string, info *gtab.Info) {
	if info == nil {
		return
	}
	u.do(what+".Encode", func() { info.Encode() })
	for _, l := range []language.Tag{language.Und, language.German, language.MustParse("tr-Latn"), language.MustParse("ar")} {
		u.do(what+".FindLookups", func() { info.FindLookups(l, map[string]bool{"liga": true, "kern": true, "mark": true}) })
	}
	u.do(what+" Feature.String", func() {
		for _, f := range info.FeatureList {
			_ = f.String()
		}
	})
}

func useCFF(u *user, f *cff.Font) {
	u.do("NumGlyphs", func() { f.NumGlyphs() })
	n := len(f.Glyphs)
	u.do("Widths", func() { f.Widths() })
	u.do("WidthsPDF", func() { f.WidthsPDF() })
	if !f.IsCIDKeyed() {
		u.do("WidthsMapPDF", func() { f.WidthsMapPDF() })
		u.do("BuiltinEncoding", func() { f.BuiltinEncoding() })
	}
	u.do("BBox", func() { f.BBox() })
	u.do("FontBBoxPDF", func() { f.FontBBoxPDF() })
	for i := 0; i < n && i < 40; i++ {
		g := f.Glyphs[i]
		u.do("Extent", func() { g.Extent() })
		u.do("Glyph.String", func() { _ = g.String() })
		u.do("GlyphWidthPDF", func() { f.GlyphWidthPDF(glyph.ID(i)) })
		u.do("GlyphBBoxPDF", func() { f.GlyphBBoxPDF(f.FontMatrix, glyph.ID(i)) })
		u.do("FDSelect", func() { _ = f.Private[f.FDSelect(glyph.ID(i))] })
	}
	u.do("FDSelect(last)", func() { _ = f.Private[f.FDSelect(glyph.ID(n-1))] })
	u.do("Clone", func() { f.Clone() })
	u.do("cff.Write", func() { f.Write(io.Discard) })
}

func useFont(c *core.C, u *user, f *sfnt.Font) {
	n := 0
	u.do("NumGlyphs", func() { n = f.NumGlyphs() })
	u.do("Widths", func() { f.Widths() })
	u.do("WidthsPDF", func() { f.WidthsPDF() })
	u.do("WidthsMapPDF", func() { f.WidthsMapPDF() })
	u.do("GlyphBBoxes", func() { f.GlyphBBoxes() })
	u.do("FontBBox", func() { f.FontBBox() })
	u.do("FontBBoxPDF", func() { f.FontBBoxPDF() })
	u.do("IsFixedPitch", func() { f.IsFixedPitch() })
	u.do("BuiltinEncoding", func() { f.BuiltinEncoding() })
	u.do("FullName", func() { f.FullName() })
	u.do("Subfamily", func() { f.Subfamily() })
	u.do("PostScriptName", func() { f.PostScriptName() })
	u.do("GetFontInfo", func() { f.GetFontInfo() })
	for i := 0; i < n && i < 50; i++ {
		gid := glyph.ID(i)
		if i > 30 {
			gid = glyph.ID(n - 1 - (i - 31))
		}
		u.do("GlyphName", func() { f.GlyphName(gid) })
		u.do("GlyphWidth", func() { f.GlyphWidth(gid) })
		u.do("GlyphWidthPDF", func() { f.GlyphWidthPDF(gid) })
		u.do("GlyphBBox", func() { f.GlyphBBox(gid) })
		u.do("Outlines.GlyphBBoxPDF", func() { f.Outlines.GlyphBBoxPDF(f.FontMatrix, gid) })
	}
	useCmap(c, u, f.CMapTable)
	useInfo(c, u, "Gsub", f.Gsub)
	useInfo(c, u, "Gpos", f.Gpos)
	if f.Gdef != nil {
		u.do("Gdef.Encode", func() { f.Gdef.Encode() })
		u.do("Gdef.IsMark", func() { f.Gdef.IsMark(0); f.Gdef.IsMark(65535) })
	}
	if o, ok := f.Outlines.(*glyf.Outlines); ok {
		useGlyphs(u, o.Glyphs)
		u.do("WriteTrueTypePDF", func() { f.WriteTrueTypePDF(io.Discard) })
	} else {
		useCFF(u, f.AsCFF())
		u.do("WriteOpenTypeCFFPDF", func() { f.WriteOpenTypeCFFPDF(io.Discard) })
	}
	u.do("Clone", func() { f.Clone() })
	u.do("Write", func() { f.Write(io.Discard) })
}

// smallFont makes the file of a small valid font.
func smallFont(c *core.C, kind int, layout bool) []byte {
	f := gen.Font(c, &gen.FOpt{Kind: kind, MinGlyphs: 1, MaxGlyphs: 14, Layout: layout, NoCmap: c.P(1, 8)})
	var buf bytes.Buffer
	var err error
	v, _ := core.Catch(func() { _, err = f.Write(&buf) })
	if v != nil || err != nil { // C01 decides whether this is right
		buf.Reset()
		f = gen.Font(core.NewC(1), &gen.FOpt{Kind: kind, MinGlyphs: 3, MaxGlyphs: 3, Plain: true, Clean: true})
		if _, err := f.Write(&buf); err != nil {
			core.Harness("cannot write a small font: %v", err)
		}
	}
	return buf.Bytes()
}

// tableOf returns one table of a small valid font.
func tableOf(c *core.C, kind int, tag string) []byte {
	_, recs := gen.ParseSfntLoose(smallFont(c, kind, false))
	for _, t := range recs {
		if t.Tag == tag {
			return append([]byte(nil), t.Data...)
		}
	}
	return nil
}

// twoParts packs two byte strings into one, so that faults can hit both.
func twoParts(a, b []byte) []byte {
	return append(append([]byte{byte(len(a) >> 8), byte(len(a))}, a...), b...)
}

func split(data []byte) ([]byte, []byte) {
	if len(data) < 2 {
		return data, nil
	}
	n := int(data[0])<<8 | int(data[1])
	data = data[2:]
	if n > len(data) {
		n = len(data)
	}
	return data[:n:n], data[n:]
}

func makeFile(c *core.C, o *gen.RawOpt) []byte {
	kind := c.W(5, 3, 3)
	file := smallFont(c, kind, !o.Heavy && c.P(1, 2))
	scaler, recs := gen.ParseSfntLoose(file)
	if recs == nil {
		return file
	}
	if c.P(1, 6) {
		return file
	}
	n := 8
	// replace, damage, add, remove tables inside a consistent container
	for i, k := 0, c.R(1, 4); i < k; i++ {
		switch c.W(5, 3, 1) {
		case 0:
			tag := []string{"GSUB", "GPOS", "GDEF", "cmap", "name", "post", "OS/2", "kern", "CFF ", "glyf"}[c.N(10)]
			var data []byte
			switch tag {
			case "GSUB":
				data = o.RawGtab(c, false)
			case "GPOS":
				data = o.RawGtab(c, true)
			case "GDEF":
				data = o.RawGdef(c)
			case "cmap":
				data = o.RawCmap(c, n)
			case "name":
				data = o.RawName(c)
			case "post":
				data = o.RawPost(c, n)
			case "OS/2":
				data = o.RawOS2(c)
			case "kern":
				data = o.RawKern(c, n)
			case "CFF ":
				if kind == gen.Glyf {
					continue
				}
				data = o.RawCFF(c)
			default:
				continue
			}
			if c.P(1, 3) {
				data, _ = gen.Corrupt(c, data, c.R(1, 3))
			}
			found := false
			for j := range recs {
				if recs[j].Tag == tag {
					recs[j].Data = data
					found = true
				}
			}
			if !found {
				recs = append(recs, gen.TableRec{Tag: tag, Data: data})
			}
		case 1:
			j := c.N(len(recs))
			recs[j].Data, _ = gen.Corrupt(c, recs[j].Data, c.R(1, 4))
		case 2:
			j := c.N(len(recs))
			recs = append(recs[:j], recs[j+1:]...)
			if len(recs) == 0 {
				return file
			}
		}
	}
	fo := &gen.FileOpt{NoPad: c.P(1, 4)}
	return gen.BuildSfnt(scaler, recs, fo)
}

func makeGlyf(c *core.C, o *gen.RawOpt) []byte {
	_, recs := gen.ParseSfntLoose(smallFont(c, gen.Glyf, false))
	var g, l, h []byte
	for _, t := range recs {
		switch t.Tag {
		case "glyf":
			g = t.Data
		case "loca":
			l = t.Data
		case "head":
			h = t.Data
		}
	}
	if len(g) > 60000 {
		g = g[:60000]
	}
	// one more glyph, of a special form
	var x []byte
	switch c.W(4, 2, 2, 2) {
	case 1: // no contours, with or without data
		x = (&gen.Blob{}).U16(0, 0, 0, 0, 0).Data
		x = append(x, c.Bytes(c.N(6))...)
		if c.P(1, 2) && len(x) >= 12 {
			x[10], x[11] = 0, 0
		}
	case 2: // contours which are not in order
		k := c.R(1, 5)
		b := (&gen.Blob{}).U16(k, 0, 0, 100, 100)
		for i := 0; i < k; i++ {
			b.U16(c.N(8))
		}
		b.U16(c.N(4))
		x = append(b.Data, c.Bytes(c.N(40))...)
	case 3: // many points from few bytes
		b := (&gen.Blob{}).U16(1, 0, 0, 100, 100)
		m := 65535
		if c.P(1, 2) {
			m = c.N(65536)
		}
		b.U16(m, 0)
		for i := 0; i <= m/256; i++ {
			b.U8(0x38, 255)
		}
		x = b.Data
	}
	if x != nil {
		for len(x)%4 != 0 {
			x = append(x, 0)
		}
		old := len(g)
		g = append(append([]byte(nil), g...), x...)
		long := len(h) > 51 && h[51] != 0
		e := old + len(x)
		if long {
			l = append(append([]byte(nil), l...), byte(e>>24), byte(e>>16), byte(e>>8), byte(e))
		} else {
			l = append(append([]byte(nil), l...), byte(e>>9), byte(e>>1))
		}
	}
	fmt := byte(0)
	if len(h) > 51 {
		fmt = h[51]
	}
	if c.P(1, 12) {
		fmt ^= 1
	}
	if c.P(1, 12) {
		g, _ = gen.Corrupt(c, g, 2)
	}
	if c.P(1, 5) {
		// rewrite loca, with one entry which is out of order or out of range
		l = badLoca(c, l, &fmt, len(g))
	}
	return append([]byte{fmt}, twoParts(l, g)...)
}

// badLoca converts loca data between formats and changes one entry.
func badLoca(c *core.C, l []byte, format *byte, glyfLen int) []byte {
	var offs []int
	if *format == 0 {
		for i := 0; i+1 < len(l); i += 2 {
			offs = append(offs, 2*(int(l[i])<<8|int(l[i+1])))
		}
	} else {
		for i := 0; i+3 < len(l); i += 4 {
			offs = append(offs, int(l[i])<<24|int(l[i+1])<<16|int(l[i+2])<<8|int(l[i+3]))
		}
	}
	if len(offs) > 0 {
		i := c.N(len(offs))
		if c.P(1, 3) {
			i = len(offs) - 1
		} else if c.P(1, 5) {
			i = 0
		}
		switch c.N(6) {
		case 0:
			offs[i] = 0
		case 1:
			offs[i] = glyfLen + c.R(-2, 4)
		case 2:
			offs[i] += []int{2, -2, 4, -4, 1}[c.N(5)]
		case 3:
			offs[i] = offs[c.N(len(offs))]
		case 4:
			offs[i] = 0xFFFFFFFF
		}
	}
	*format = byte(c.N(2))
	var out []byte
	for _, o := range offs {
		if *format == 0 {
			out = append(out, byte(o>>9), byte(o>>1))
		} else {
			out = append(out, byte(o>>24), byte(o>>16), byte(o>>8), byte(o))
		}
	}
	return out
}

// fromFont mixes tables made by the library's own encoders with raw ones.
func fromFont(kind int, tag string, raw func(c *core.C, o *gen.RawOpt) []byte) func(c *core.C, o *gen.RawOpt) []byte {
	return func(c *core.C, o *gen.RawOpt) []byte {
		if raw == nil || c.P(1, 4) {
			k := kind
			if k < 0 {
				k = c.N(3)
			}
			if b := tableOf(c, k, tag); b != nil {
				return b
			}
		}
		if raw == nil {
			return nil
		}
		return raw(c, o)
	}
}

func makeGtab(gpos bool) func(c *core.C, o *gen.RawOpt) []byte {
	return func(c *core.C, o *gen.RawOpt) []byte {
		if c.P(1, 3) {
			lo := &gen.LOpt{N: 20, Gpos: gpos, Types: gen.GsubTypes, Max: 5, Wild: c.P(1, 2), MaxAct: 3, Flags: gen.AllFlags, MarkSets: 2}
			if gpos {
				lo.Types = gen.GposTypes
			}
			info := gen.Info(c, lo.LookupList(c), gen.Tags, 3, true, "liga")
			var b []byte
			if v, _ := core.Catch(func() { b = info.Encode() }); v == nil {
				return b
			}
		}
		return o.RawGtab(c, gpos)
	}
}

func readAs(tp gtab.Type, what string) func(c *core.C, data []byte) (func(u *user), error) {
	return func(c *core.C, data []byte) (func(u *user), error) {
		info, err := gtab.Read(bytes.NewReader(data), tp)
		if err != nil {
			return nil, err
		}
		return func(u *user) { useInfo(c, u, what, info) }, nil
	}
}

var decoders []*decoder

func init() {
	raw := func(f func(o *gen.RawOpt, c *core.C) []byte) func(c *core.C, o *gen.RawOpt) []byte {
		return func(c *core.C, o *gen.RawOpt) []byte { return f(o, c) }
	}
	decoders = []*decoder{
		{"sfnt.Read", 8, makeFile, func(c *core.C, data []byte) (func(u *user), error) {
			var rd io.Reader = bytes.NewReader(data)
			if c.P(1, 3) {
				rd = struct{ io.Reader }{rd}
			}
			f, err := sfnt.Read(rd)
			if err != nil {
				return nil, err
			}
			return func(u *user) { useFont(c, u, f) }, nil
		}},
		{"header.Read", 3, func(c *core.C, o *gen.RawOpt) []byte {
			if c.P(1, 2) {
				return smallFont(c, c.N(3), false)
			}
			k := c.N(12)
			if o.Heavy {
				k = c.N(400)
			}
			b := (&gen.Blob{}).U32([]int{0x00010000, 0x4F54544F, 0x74727565, 0x74746366}[c.W(3, 3, 1, 1)]).U16(k, 0, 0, 0)
			pos := 12 + 16*k
			total := pos
			for i := 0; i < k; i++ {
				l := c.N(20)
				p := pos
				if c.P(1, 6) {
					p = []int{0, 4, 0xFFFFFFF0, 0xFFFFFFFF, 0x7FFFFFFF, total}[c.N(6)]
				}
				if c.P(1, 6) {
					l = []int{0, 0x10, 0x20, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000}[c.N(6)]
				}
				b.U8('a'+i/26%26, 'a'+i%26, ' ', ' ').U32(0, p, l)
				if l < 100 {
					pos += (l + 3) &^ 3
				}
			}
			b.Data = append(b.Data, make([]byte, pos-total)...)
			return b.Data
		}, func(c *core.C, data []byte) (func(u *user), error) {
			rd := bytes.NewReader(data)
			info, err := header.Read(rd)
			if err != nil {
				return nil, err
			}
			var tags []string
			for t := range info.Toc {
				tags = append(tags, t)
			}
			sortStrings(tags)
			return func(u *user) {
				for _, t := range tags {
					u.do("Has", func() { info.Has(t) })
					u.do("ReadTableBytes", func() { info.ReadTableBytes(rd, t) })
					u.do("TableReader", func() {
						s, err := info.TableReader(rd, t)
						if err == nil {
							io.Copy(io.Discard, s)
						}
					})
				}
				u.do("ReadTableBytes(missing)", func() { info.ReadTableBytes(rd, "none") })
			}, nil
		}},
		{"cff.Read", 6, func(c *core.C, o *gen.RawOpt) []byte {
			if c.P(1, 2) {
				return o.RawCFF(c)
			}
			return tableOf(c, 1+c.N(2), "CFF ")
		}, func(c *core.C, data []byte) (func(u *user), error) {
			f, err := cff.Read(bytes.NewReader(data))
			if err != nil {
				return nil, err
			}
			return func(u *user) { useCFF(u, f) }, nil
		}},
		{"cmap.Decode", 5, fromFont(-1, "cmap", func(c *core.C, o *gen.RawOpt) []byte { return o.RawCmap(c, 12) }),
			func(c *core.C, data []byte) (func(u *user), error) {
				t, err := cmap.Decode(data)
				if err != nil {
					return nil, err
				}
				// Get is a decoder, too: same bounds
				keys := sortedKeys(t)
				if len(keys) > 12 {
					keys = keys[:12]
				}
				n := uint64(len(data))
				for _, k := range keys {
					c02Sub(n)
					t.Get(k)
				}
				c02Sub(n)
				t.GetBest()
				return func(u *user) { useCmap(c, u, t) }, nil
			}},
		{"glyf.Decode", 5, makeGlyf, func(c *core.C, data []byte) (func(u *user), error) {
			if len(data) == 0 {
				return nil, io.EOF
			}
			l, g := split(data[1:])
			gg, err := glyf.Decode(&glyf.Encoded{GlyfData: g, LocaData: l, LocaFormat: int16(data[0])})
			if err != nil {
				return nil, err
			}
			return func(u *user) { useGlyphs(u, gg) }, nil
		}},
		{"SimpleGlyph.Decode", 2, func(c *core.C, o *gen.RawOpt) []byte {
			var cc []glyf.Contour
			for i, k := 0, c.R(0, 4); i < k; i++ {
				var pts glyf.Contour
				for j, m := 0, c.R(0, 6); j < m; j++ {
					pts = append(pts, glyf.Point{X: funit.Int16(c.N(600) - 300), Y: funit.Int16(c.N(300)), OnCurve: c.P(1, 2)})
				}
				if len(pts) > 0 {
					cc = append(cc, pts)
				}
			}
			g := gen.Simple(cc, c.Bytes(c.N(8)), c.N(4))
			s := g.Data.(glyf.SimpleGlyph)
			return append([]byte{byte(s.NumContours >> 8), byte(s.NumContours)}, s.Encoded...)
		}, func(c *core.C, data []byte) (func(u *user), error) {
			// via glyf.Decode, since only decoded values can be decoded further
			if len(data) < 2 {
				return nil, io.EOF
			}
			d := append([]byte{data[0], data[1], 0, 0, 0, 0, 0, 9, 0, 9}, data[2:]...)
			for len(d)%2 != 0 {
				d = append(d, 0)
			}
			loca := []byte{0, 0, byte(len(d) >> 9), byte(len(d) >> 1)}
			gg, err := glyf.Decode(&glyf.Encoded{GlyfData: d, LocaData: loca})
			if err != nil {
				return nil, err
			}
			return func(u *user) { useGlyphs(u, gg) }, nil
		}},
		{"gtab.Read(GSUB)", 8, makeGtab(false), readAs(gtab.TypeGsub, "Gsub")},
		{"gtab.Read(GPOS)", 8, makeGtab(true), readAs(gtab.TypeGpos, "Gpos")},
		{"gdef.Read", 3, raw((*gen.RawOpt).RawGdef), func(c *core.C, data []byte) (func(u *user), error) {
			t, err := gdef.Read(bytes.NewReader(data))
			if err != nil {
				return nil, err
			}
			return func(u *user) {
				u.do("IsMark", func() { t.IsMark(1) })
				u.do("Encode", func() { t.Encode() })
			}, nil
		}},
		{"coverage.Read", 2, func(c *core.C, o *gen.RawOpt) []byte { return o.RawCov(c).Bytes() }, func(c *core.C, data []byte) (func(u *user), error) {
			t, err := coverage.Read(parser.New(bytes.NewReader(data)), 0)
			if err != nil {
				return nil, err
			}
			return func(u *user) {
				u.do("Glyphs", func() { t.Glyphs() })
				u.do("Contains", func() { t.Contains(1) })
				u.do("ToSet", func() { t.ToSet() })
				u.do("EncodeLen", func() { t.EncodeLen() })
				u.do("Encode", func() { t.Encode() })
				u.do("Prune", func() { t.Prune(c.N(4)) })
				u.do("Encode", func() { t.Encode() })
			}, nil
		}},
		{"coverage.ReadSet", 2, func(c *core.C, o *gen.RawOpt) []byte { return o.RawCov(c).Bytes() }, func(c *core.C, data []byte) (func(u *user), error) {
			t, err := coverage.ReadSet(parser.New(bytes.NewReader(data)), 0)
			if err != nil {
				return nil, err
			}
			return func(u *user) {
				u.do("Glyphs", func() { t.Glyphs() })
				u.do("ToTable", func() { t.ToTable().Encode() })
			}, nil
		}},
		{"classdef.Read", 2, func(c *core.C, o *gen.RawOpt) []byte { return o.RawClass(c).Bytes() }, func(c *core.C, data []byte) (func(u *user), error) {
			t, err := classdef.Read(parser.New(bytes.NewReader(data)), 0)
			if err != nil {
				return nil, err
			}
			return func(u *user) {
				u.do("NumClasses", func() { t.NumClasses() })
				u.do("Glyphs", func() { t.Glyphs() })
				u.do("Append", func() { t.Append(nil) })
			}, nil
		}},
		{"name.Decode", 3, fromFont(-1, "name", raw((*gen.RawOpt).RawName)), func(c *core.C, data []byte) (func(u *user), error) {
			t, err := name.Decode(data)
			if err != nil {
				return nil, err
			}
			return func(u *user) {
				u.do("Choose", func() { t.Windows.Choose(language.English); t.Mac.Choose(language.German) })
				u.do("String", func() {
					if x, _ := t.Windows.Choose(language.English); x != nil {
						_ = x.String()
					}
				})
				u.do("Encode", func() { t.Encode(1) })
			}, nil
		}},
		{"head.Read", 2, fromFont(-1, "head", nil), func(c *core.C, data []byte) (func(u *user), error) {
			t, err := head.Read(bytes.NewReader(data))
			if err != nil {
				return nil, err
			}
			return func(u *user) {
				u.do("Version.String", func() { _ = t.FontRevision.String(); t.FontRevision.Round() })
				u.do("Encode", func() { t.Encode() })
			}, nil
		}},
		{"hmtx.Decode", 2, func(c *core.C, o *gen.RawOpt) []byte {
			_, recs := gen.ParseSfntLoose(smallFont(c, c.N(3), false))
			var a, b []byte
			for _, t := range recs {
				switch t.Tag {
				case "hhea":
					a = t.Data
				case "hmtx":
					b = t.Data
				}
			}
			return twoParts(a, b)
		}, func(c *core.C, data []byte) (func(u *user), error) {
			a, b := split(data)
			t, err := hmtx.Decode(a, b)
			if err != nil {
				return nil, err
			}
			return func(u *user) { u.do("Encode", func() { t.Encode() }) }, nil
		}},
		{"maxp.Read", 2, fromFont(-1, "maxp", nil), func(c *core.C, data []byte) (func(u *user), error) {
			t, err := maxp.Read(bytes.NewReader(data))
			if err != nil {
				return nil, err
			}
			return func(u *user) { u.do("Encode", func() { t.Encode() }) }, nil
		}},
		{"os2.Read", 2, fromFont(-1, "OS/2", raw((*gen.RawOpt).RawOS2)), func(c *core.C, data []byte) (func(u *user), error) {
			t, err := os2.Read(bytes.NewReader(data))
			if err != nil {
				return nil, err
			}
			return func(u *user) {
				u.do("String", func() {
					_ = t.WeightClass.String() + t.WidthClass.String() + t.PermUse.String()
					t.WeightClass.Rounded()
				})
				u.do("Encode", func() { t.Encode() })
			}, nil
		}},
		{"post.Read", 3, fromFont(-1, "post", func(c *core.C, o *gen.RawOpt) []byte { return o.RawPost(c, 12) }), func(c *core.C, data []byte) (func(u *user), error) {
			t, err := post.Read(bytes.NewReader(data))
			if err != nil {
				return nil, err
			}
			return func(u *user) { u.do("Encode", func() { t.Encode() }) }, nil
		}},
		{"kern.Read", 3, func(c *core.C, o *gen.RawOpt) []byte { return o.RawKern(c, 30) }, func(c *core.C, data []byte) (func(u *user), error) {
			t, err := kern.Read(bytes.NewReader(data))
			if err != nil {
				return nil, err
			}
			return func(u *user) { u.do("Encode", func() { t.Encode() }) }, nil
		}},
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
