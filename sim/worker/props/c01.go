package props

import (
	"bytes"
	"fmt"
	"io"
	"maps"
	"math"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"time"

	"golang.org/x/text/language"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"

	"verif/sim/worker/core"
	"verif/sim/worker/gen"
	"verif/sim/worker/simio"
	"verif/sim/worker/snap"
)

func init() {
	register(&core.Prop{ID: "C01", Run: runC01, Budget: 1_500_000_000, HeapMax: 3 << 30})
}

// env changes the outside world between two operations: the clock jumps, the
// process runs in another time zone.  (Map iteration orders differ anyway.)
func c01Env(r *core.Run) {
	c := r.C
	if c.P(1, 2) {
		t := []int64{-62135596800, -2082844800, 0, 951782400, 1700000000, 4102444800, 32503680000}[c.N(7)] + int64(c.N(86400))
		runtime.SimSetClock(t, int32(c.N(1_000_000_000)))
		r.Count("fault: clock jump")
	}
	if c.P(1, 2) {
		off := (c.N(29) - 14) * 3600
		if c.P(1, 4) {
			off += 1800
		}
		time.Local = time.FixedZone("SIM", off)
		r.Count("fault: time zone change")
	}
}

// c01Write runs one write operation in the current environment.
func c01Write(r *core.Run, what string, f *sfnt.Font) ([]byte, bool) {
	var buf bytes.Buffer
	var n int64
	var err error
	val, where := core.Catch(func() { n, err = f.Write(&buf) })
	if val != nil {
		if !strings.HasPrefix(where, "seehuhn.de/") {
			core.Harness("%s: panic in %s: %v", what, where, val)
		}
		r.Violate(over("panic")+"/"+what+"/"+where, "%s: Write panics: %.200s (in %s)", what, fmt.Sprint(val), where)
		return nil, false
	}
	if err != nil {
		r.Violate("write-error/"+what, "%s: Write fails: %v", what, err)
		return nil, false
	}
	if n != int64(buf.Len()) {
		r.Violate("count/"+what, "%s: Write returns %d, but wrote %d bytes", what, n, buf.Len())
		return nil, false
	}
	return buf.Bytes(), true
}

func over(def string) string {
	switch runtime.SimOver() {
	case 1:
		return "hang"
	case 2, 3:
		return "alloc"
	}
	return def
}

// c01Read restarts: only the bytes survive.
func c01Read(r *core.Run, what string, data []byte) (*sfnt.Font, error, bool) {
	c := r.C
	var rd io.Reader
	dev := simio.NewDev(r, data, c.Sub())
	dev.Mode = c.N(simio.NumModes)
	dev.EOFWithData = c.P(1, 2)
	switch c.N(3) {
	case 0:
		rd = bytes.NewReader(data)
	case 1:
		rd = simio.ReadReadAt{D: dev}
	case 2:
		rd = simio.Stream{D: dev}
	}
	var f *sfnt.Font
	var err error
	val, where := core.Catch(func() { f, err = sfnt.Read(rd) })
	if val != nil {
		if !strings.HasPrefix(where, "seehuhn.de/") {
			core.Harness("%s: panic in %s: %v", what, where, val)
		}
		r.Violate(over("panic")+"/"+what+"/"+where, "%s: Read panics: %.200s (in %s)", what, fmt.Sprint(val), where)
		return nil, nil, false
	}
	return f, err, true
}

// tables lists the tables which differ between two files.
func diffTables(a, b []byte) string {
	_, ra := gen.ParseSfntLoose(a)
	_, rb := gen.ParseSfntLoose(b)
	get := func(rr []gen.TableRec, tag string) ([]byte, bool) {
		for _, t := range rr {
			if t.Tag == tag {
				return t.Data, true
			}
		}
		return nil, false
	}
	var out []string
	for _, t := range ra {
		d, ok := get(rb, t.Tag)
		if !ok {
			out = append(out, "-"+t.Tag)
		} else if t.Tag == "head" && len(d) >= 12 && len(t.Data) >= 12 {
			if !bytes.Equal(d[:8], t.Data[:8]) || !bytes.Equal(d[12:], t.Data[12:]) {
				out = append(out, t.Tag)
			}
		} else if !bytes.Equal(d, t.Data) {
			out = append(out, t.Tag)
		}
	}
	for _, t := range rb {
		if _, ok := get(ra, t.Tag); !ok {
			out = append(out, "+"+t.Tag)
		}
	}
	if len(out) == 0 {
		return "container"
	}
	return strings.Join(out, ",")
}

// field reduces the path of a difference to a stable class name.
func field(d string) string {
	var out []byte
	depth := 0
	for i := 0; i < len(d); i++ {
		ch := d[i]
		if ch == ':' {
			break
		}
		if ch == '[' {
			depth++
			continue
		}
		if ch == ']' {
			depth--
			continue
		}
		if depth == 0 {
			out = append(out, ch)
		}
	}
	return strings.TrimPrefix(string(out), ".")
}

// runC01 follows a font through several generations of files: each
// generation is written, the process restarts with nothing but the bytes, and
// reads them back, with the clock, the time zone, map iteration orders and the
// behaviour of the storage device changing in between.
func runC01(r *core.Run) {
	c := r.C
	runtime.SimSetClock(1700000000, 0)
	defer func() { time.Local = time.UTC }()
	time.Local = time.UTC

	if c.P(2, 5) {
		c01File(r)
		return
	}
	r.Count("mode: constructed")
	start := len(c.Rec)
	f, chars := c01Font(c)
	again := core.ReplayC(append([]uint64(nil), c.Rec[start:]...))
	want, _ := c01Font(again)
	r.NonTrivial = true

	c01Env(r)
	w1, ok := c01Write(r, "Write(F)", f)
	if !ok {
		return
	}
	r.Ev(snap.Hash(w1))
	c01Env(r)
	w1b, ok := c01Write(r, "Write(F)", f)
	if !ok {
		return
	}
	if !bytes.Equal(w1, w1b) {
		r.Violate("twice/"+diffTables(w1, w1b), "writing the same font twice gives different bytes, tables %s", diffTables(w1, w1b))
		return
	}
	g, err, ok := c01Read(r, "Read(Write(F))", w1)
	if !ok {
		return
	}
	if err != nil {
		r.Violate("unreadable", "Read(Write(F)) fails: %v", err)
		return
	}
	if d := c01Diff(want, g); d != "" {
		r.Violate("lossy/"+field(d), "Read(Write(F)) != F: %s", d)
		return
	}
	if chars != nil {
		r.Count("installed character maps")
		if d := c01CheckCmap(g, chars); d != "" {
			r.Violate("lossy/cmap", "the character map is not as installed: %s", d)
			return
		}
	}
	if o, ok := g.Outlines.(*glyf.Outlines); ok {
		if d := c01Contours(r, o.Glyphs); d != "" {
			r.Violate("lossy/contours", "outlines read back: %s", d)
			return
		}
	}
	strict := snap.Diff(f, g) == ""
	w2 := c01Fixed(r, g, w1)
	if w2 == nil {
		return
	}
	if strict {
		r.Count("strictly normal fonts")
		if !bytes.Equal(w1, w2) {
			r.Violate("equal-fonts/"+diffTables(w1, w2), "two equal fonts are written differently, tables %s", diffTables(w1, w2))
		}
	}
}

// c01CheckCmap compares the best character map with a model.
func c01CheckCmap(f *sfnt.Font, chars map[rune]glyph.ID) string {
	best, err := f.CMapTable.GetBest()
	if err != nil {
		return err.Error()
	}
	for _, ch := range slices.Sorted(maps.Keys(chars)) {
		for d := rune(-1); d <= 1; d++ {
			if got := best.Lookup(ch + d); ch+d >= 0 && got != chars[ch+d] {
				return fmt.Sprintf("%U is mapped to %d instead of %d", ch+d, got, chars[ch+d])
			}
		}
	}
	return ""
}

// c01Contours compares the contours of the simple glyphs with the result of
// a second decoder.
func c01Contours(r *core.Run, gg glyf.Glyphs) (msg string) {
	for i, g := range gg {
		if g == nil || i >= 400 {
			continue
		}
		s, ok := g.Data.(glyf.SimpleGlyph)
		if !ok {
			continue
		}
		info, err := s.Decode()
		if err != nil {
			return fmt.Sprintf("glyph %d cannot be decoded: %v", i, err)
		}
		b := s.Encoded
		n := int(s.NumContours)
		be := func(p int) int { return int(b[p])<<8 | int(b[p+1]) }
		p := 2*n + 2 + be(2*n)
		total := 0
		if n > 0 {
			total = be(2*n-2) + 1
		}
		var flags []byte
		for len(flags) < total {
			fl := b[p]
			p++
			k := 1
			if fl&8 != 0 {
				k += int(b[p])
				p++
			}
			for ; k > 0; k-- {
				flags = append(flags, fl)
			}
		}
		axis := func(short, same byte) []int16 {
			var res []int16
			v := 0
			for _, fl := range flags[:total] {
				switch {
				case fl&short != 0 && fl&same != 0:
					v += int(b[p])
					p++
				case fl&short != 0:
					v -= int(b[p])
					p++
				case fl&same == 0:
					v += int(int16(be(p)))
					p += 2
				}
				res = append(res, int16(v))
			}
			return res
		}
		xx := axis(2, 16)
		yy := axis(4, 32)
		if len(info.Contours) != n {
			return fmt.Sprintf("glyph %d has %d contours instead of %d", i, len(info.Contours), n)
		}
		k := 0
		for j, cc := range info.Contours {
			if k+len(cc) != be(2*j)+1 {
				return fmt.Sprintf("glyph %d: contour %d has %d points instead of %d", i, j, len(cc), be(2*j)+1-k)
			}
			for _, pt := range cc {
				if int16(pt.X) != xx[k] || int16(pt.Y) != yy[k] || pt.OnCurve != (flags[k]&1 != 0) {
					return fmt.Sprintf("glyph %d: point %d is %v instead of (%d,%d)", i, k, pt, xx[k], yy[k])
				}
				k++
			}
		}
		if !bytes.Equal(info.Instructions, b[2*n+2:2*n+2+be(2*n)]) {
			return fmt.Sprintf("glyph %d: wrong instructions", i)
		}
		r.Count("glyphs decoded")
	}
	return ""
}

// c01Fixed checks that f, which was returned by Read, is a fixed point.  It
// returns the encoded form of f.
func c01Fixed(r *core.Run, f *sfnt.Font, src []byte) []byte {
	c := r.C
	c01Env(r)
	noDate := f.ModificationTime.IsZero() && f.CreationTime.IsZero()
	if noDate {
		// the name table contains today's date
		runtime.SimSetClock(1700000000, 0)
		time.Local = time.UTC
	}
	w, ok := c01Write(r, "Write(Read(b))", f)
	if !ok {
		return nil
	}
	first := w
	gens := c.R(1, 3)
	for k := 0; k < gens; k++ {
		if !noDate {
			c01Env(r)
		}
		g, err, ok := c01Read(r, "Read(Write(Read(b)))", w)
		if !ok {
			return nil
		}
		if err != nil {
			r.Violate("fixed/unreadable", "generation %d: Read(Write(Read(b))) fails: %v", k, err)
			return nil
		}
		if d := snap.Diff(f, g); d != "" {
			r.Logf("before: %s", c01Describe(f))
			r.Logf("after: %s", c01Describe(g))
			r.Violate("fixed/"+field(d), "generation %d: Read(Write(Read(b))) != Read(b): %s", k, d)
			return nil
		}
		if !noDate {
			c01Env(r)
		}
		w2, ok := c01Write(r, "Write(Read(Write(Read(b))))", g)
		if !ok {
			return nil
		}
		if !bytes.Equal(w, w2) {
			d := diffTables(w, w2)
			r.Violate("fixed-bytes/"+d, "generation %d: Write(Read(Write(Read(b)))) != Write(Read(b)), tables %s", k, d)
			return nil
		}
		f, w = g, w2
		r.Count("generations")
	}
	return first
}

// c01Describe gives the scalar fields of a font, for replay logs.
func c01Describe(f *sfnt.Font) string {
	g := *f
	g.CMapTable, g.Outlines, g.Gsub, g.Gpos, g.Gdef = nil, nil, nil, nil, nil
	return fmt.Sprintf("%d glyphs, subfamily %q, %.2000s", f.NumGlyphs(), f.Subfamily(), fmt.Sprintf("%+v", g))
}

// c01File checks the fixed point for files from elsewhere.
func c01File(r *core.Run) {
	c := r.C
	r.Count("mode: file")
	o := &gen.RawOpt{}
	var data []byte
	dense := c.P(1, 4)
	if dense {
		r.Count("mode: dense lookups")
		data = c01Dense(c)
	} else {
		data = c01MakeFile(c, o)
	}
	if c.P(1, 8) {
		data, _ = gen.Corrupt(c, data, c.R(1, 3))
	}
	f, err, ok := c01Read(r, "Read(b)", data)
	if !ok {
		// how Read treats damaged files is the subject of C02
		r.Viol = nil
		return
	}
	r.Ev(uint64(len(data)))
	if dense && err == nil {
		r.Count("dense lookups accepted")
	}
	if err != nil {
		r.Count("files rejected")
		r.Logf("rejected: %v", err)
		return
	}
	r.Count("files accepted")
	r.NonTrivial = true
	c01Fixed(r, f, data)
}

// c01Dense makes a file with lookups which are near to the size limits of the
// file format, once shared pieces are stored separately.
func c01Dense(c *core.C) []byte {
	what := c.W(40, 10, 10, 2, 1)
	kind := c.N(3)
	if what == 3 {
		kind = gen.Glyf
	}
	scaler, recs := gen.ParseSfntLoose(smallFont(c, kind, true))
	set := func(tag string, data []byte) {
		i := slices.IndexFunc(recs, func(t gen.TableRec) bool { return t.Tag == tag })
		if i < 0 {
			recs = append(recs, gen.TableRec{Tag: tag, Data: data})
		} else {
			recs[i].Data = data
		}
	}
	switch what {
	case 0:
		for _, tag := range []string{"GSUB", "GPOS"} {
			if !c.P(1, 3) {
				set(tag, gen.DenseGtab(c, tag == "GPOS"))
			}
		}
	case 1:
		set("GDEF", gen.DenseGdef(c))
	case 2:
		set("name", gen.DenseName(c))
	case 3:
		n := []int{65534, 65535, 65279, 65278, 40000, 300}[c.N(6)]
		for i := range recs {
			recs[i].Data = append([]byte(nil), recs[i].Data...)
		}
		recs = gen.ManyGlyphs(c, recs, n)
	case 4:
		recs = slices.DeleteFunc(recs, func(t gen.TableRec) bool { return t.Tag == "GPOS" })
		set("kern", gen.DenseKern(c))
	}
	return gen.BuildSfnt(scaler, recs, &gen.FileOpt{})
}

func c01MakeFile(c *core.C, o *gen.RawOpt) []byte {
	return makeFile(c, o)
}

// c01Diff compares the font got, which was read back, with the font f which
// was written.  (f belongs to the caller and is changed to its normal form.)
func c01Diff(f, got *sfnt.Font) string {
	want := *f
	w := &want

	// version numbers have three decimal digits
	if d := int64(w.Version) - int64(got.Version); d >= -34 && d <= 34 {
		w.Version = got.Version
	}
	w.CreationTime = c01Second(w.CreationTime)
	w.ModificationTime = c01Second(w.ModificationTime)

	// style flags
	w.IsBold = w.IsBold && !w.IsRegular
	w.IsItalic = w.IsItalic || w.IsOblique || w.ItalicAngle != 0
	w.IsRegular = w.IsRegular && !w.IsBold && !w.IsItalic
	w.IsScript = w.IsScript && !w.IsSerif

	// numbers
	w.ItalicAngle = math.Round(w.ItalicAngle*65536) / 65536
	w.UnderlinePosition = funit.Float64(math.Round(float64(w.UnderlinePosition)))
	w.UnderlineThickness = funit.Float64(math.Round(float64(w.UnderlineThickness)))
	for i := range w.FontMatrix {
		if math.Abs(w.FontMatrix[i]-got.FontMatrix[i]) <= 1e-8*math.Abs(w.FontMatrix[i]) {
			w.FontMatrix[i] = got.FontMatrix[i]
		}
	}

	best, _ := f.CMapTable.GetBest()
	derive := func(x *funit.Int16, r rune) {
		if *x > 0 {
			return
		}
		*x = 0
		if best != nil {
			if g := best.Lookup(r); g != 0 && int(g) < f.NumGlyphs() {
				*x = f.GlyphBBox(g).URy
			}
		}
	}
	derive(&w.CapHeight, 'H')
	derive(&w.XHeight, 'x')

	// fonts without GSUB table can get the standard ligatures (see C15)
	if w.Gsub == nil && got.Gsub != nil && best != nil {
		for r := rune(0xFB00); r <= 0xFB04; r++ {
			if best.Lookup(r) != 0 {
				w.Gsub = got.Gsub
			}
		}
	}

	if w.Gsub != nil {
		c01NormalLookups(w.Gsub.LookupList)
	}
	if w.Gpos != nil {
		c01NormalLookups(w.Gpos.LookupList)
	}

	if d := c01PlainTags(&w.Gsub, got.Gsub); d != "" {
		return "Gsub" + d
	}
	if d := c01PlainTags(&w.Gpos, got.Gpos); d != "" {
		return "Gpos" + d
	}

	// outlines
	if d := c01DiffOutlines(w.Outlines, got.Outlines); d != "" {
		return d
	}
	w.Outlines = got.Outlines
	return snap.Diff(w, got)
}

// c01NormalLookups changes details of lookups which have no representation in
// the file format and do not influence the meaning.
func c01NormalLookups(ll gtab.LookupList) {
	classes := func(t classdef.Table) int {
		k := 0
		for _, cl := range t {
			k = max(k, int(cl))
		}
		return k + 1
	}
	var zero gtab.GposValueRecord
	for _, l := range ll {
		for _, s := range l.Subtables {
			switch s := s.(type) {
			case *gtab.SeqContext2: // rules for classes without glyphs
				s.Rules = s.Rules[:min(len(s.Rules), classes(s.Input))]
			case *gtab.ChainedSeqContext2:
				s.Rules = s.Rules[:min(len(s.Rules), classes(s.Input))]
			case gtab.Gpos2_1: // all pairs have the same value format
				any := false
				for _, a := range s {
					any = any || a.Second != nil
				}
				for _, a := range s {
					if any && a.Second == nil {
						a.Second = &zero
					}
				}
			}
		}
	}
}

// plainTags are language tags which do not spell out the OpenType tags.
var plainTags = []string{
	"en", "de", "tr", "ro", "fr", "ru", "el", "he", "ar", "zh", "zh-Hans", "zh-Hant", "und-Latn",
	"und-Cyrl", "und-Laoo", "und-Nkoo", "und-Vaii", "und-Yiii", "hy", "ka", "th", "lo", "km", "my", "hi", "bn", "ta",
	"te", "sr", "sr-Cyrl", "sr-Latn", "en-US", "en-GB", "de-CH", "pt-BR", "az-Cyrl", "mn-Mong", "und",
}

// c01PlainTags compares script lists by language and script, if tags without
// OpenType tags are used.  These tags are expanded when the font is written.
func c01PlainTags(want **gtab.Info, got *gtab.Info) string {
	if *want == nil || got == nil {
		return ""
	}
	plain := false
	for tag := range (*want).ScriptList {
		if _, ok := tag.Extension('x'); !ok {
			plain = true
		}
	}
	if !plain {
		return ""
	}
	key := func(t language.Tag) string {
		base, _ := t.Base()
		script, _ := t.Script()
		if b := base.String(); b == "zh" {
			return b
		}
		return base.String() + "/" + script.String()
	}
	norm := func(sl gtab.ScriptListInfo) (map[string]*gtab.Features, bool) {
		res := make(map[string]*gtab.Features)
		dup := false
		for t, ff := range sl {
			k := key(t)
			if _, ok := res[k]; ok {
				dup = true
			}
			res[k] = ff
		}
		return res, dup
	}
	a, dup := norm((*want).ScriptList)
	b, _ := norm(got.ScriptList)
	if !dup {
		if d := snap.Diff(a, b); d != "" {
			return ".ScriptList" + d
		}
	}
	cp := **want
	cp.ScriptList = got.ScriptList
	*want = &cp
	return ""
}

// c01Plain replaces the language tags of a script list.
func c01Plain(c *core.C, info *gtab.Info) {
	if info == nil {
		return
	}
	var keys []string
	m := make(map[string]*gtab.Features)
	for tag, ff := range info.ScriptList {
		keys = append(keys, tag.String())
		m[tag.String()] = ff
	}
	slices.Sort(keys)
	perm := c.Perm(len(plainTags))
	info.ScriptList = make(gtab.ScriptListInfo)
	for i, k := range keys {
		info.ScriptList[language.MustParse(plainTags[perm[i%len(perm)]])] = m[k]
	}
}

func c01Second(t time.Time) time.Time {
	if t.IsZero() {
		return t
	}
	return time.Unix(t.Unix(), 0)
}

func c01DiffOutlines(a, b sfnt.Outlines) string {
	if g, ok := a.(*glyf.Outlines); ok {
		for name, data := range g.Tables {
			if len(data) == 0 { // the same as no table
				delete(g.Tables, name)
			}
		}
	}
	x, ok1 := a.(*cff.Outlines)
	y, ok2 := b.(*cff.Outlines)
	if ok1 != ok2 {
		return "Outlines: wrong type"
	}
	if !ok1 {
		d := snap.Diff(a, b)
		if d != "" {
			return "Outlines" + d
		}
		return ""
	}
	if len(x.Glyphs) != len(y.Glyphs) {
		return fmt.Sprintf("Outlines.Glyphs: length %d vs. %d", len(x.Glyphs), len(y.Glyphs))
	}
	for i, g := range x.Glyphs {
		h := y.Glyphs[i]
		// advance widths are integers in sfnt files
		if g.Width != math.Trunc(g.Width) && h.Width == math.Trunc(h.Width) && math.Abs(g.Width-h.Width) < 1 {
			g.Width = h.Width
		}
		if d := snap.DiffTol(g, h, 1e-4); d != "" {
			return fmt.Sprintf("Outlines.Glyphs[%d]%s", i, d)
		}
	}
	if d := snap.DiffTol(x.Private, y.Private, 1e-9); d != "" {
		return "Outlines.Private" + d
	}
	if d := snap.DiffTol(x.FontMatrices, y.FontMatrices, 1e-9); d != "" {
		return "Outlines.FontMatrices" + d
	}
	x2, y2 := *x, *y
	x2.Glyphs, x2.Private, x2.FontMatrices = y.Glyphs, y.Private, y.FontMatrices
	if d := snap.Diff(&x2, &y2); d != "" {
		return "Outlines" + d
	}
	return ""
}

// c01Font draws a font from the domain of the property.
func c01Font(c *core.C) (*sfnt.Font, map[rune]glyph.ID) {
	var installed map[rune]glyph.ID
	o := &gen.FOpt{Kind: c.N(gen.NumKinds), MinGlyphs: 1, MaxGlyphs: 40, Layout: c.P(2, 3), NoCmap: c.P(1, 10), Required: true}
	if c.P(1, 60) {
		o.Big = true
		o.Layout = false
		o.MinGlyphs = 200
		o.MaxGlyphs = 1500
		if c.P(1, 6) {
			o.MinGlyphs, o.MaxGlyphs = 2000, 65535
		}
	}
	f := gen.Font(c, o)
	n := f.NumGlyphs()

	// extreme values
	e16 := func() funit.Int16 {
		return []funit.Int16{0, 1, -1, 255, 256, -256, 32767, -32768, 1000}[c.N(9)]
	}
	for i, k := 0, c.Size(12); i < k; i++ {
		switch c.N(22) {
		case 0:
			f.Ascent = e16()
		case 1:
			f.Descent = e16()
		case 2:
			f.LineGap = e16()
		case 3:
			f.CapHeight = e16()
		case 4:
			f.XHeight = e16()
		case 5:
			f.UnderlinePosition = funit.Float64(e16())
		case 6:
			f.UnderlineThickness = funit.Float64(e16())
		case 7:
			f.UnderlinePosition = funit.Float64(c.N(4000)-2000) / 4
			f.UnderlineThickness = funit.Float64(c.N(400)) / 8
		case 8:
			f.Weight = os2.Weight([]int{0, 1, 99, 449, 450, 550, 649, 650, 749, 750, 999, 1000, 65535}[c.N(13)])
		case 9:
			f.Width = os2.Width(c.N(11))
		case 10:
			f.Version = head.Version([]uint32{0, 1, 65, 66, 0x10000, 0x1FFFF, 0x7FFFFFFF, 0xFFFF0000, 0xFFFFFFFF}[c.N(9)])
		case 11:
			f.Version = head.Version(c.U(1 << 32))
		case 12:
			f.CreationTime = c01Time(c)
		case 13:
			f.ModificationTime = c01Time(c)
		case 14:
			f.ModificationTime = c01Time(c)
			f.CreationTime = time.Time{}
		case 15:
			f.CodePageRange = os2.CodePageRange(c.U(1<<62))<<2 | os2.CodePageRange(c.N(4))
		case 16:
			f.ItalicAngle = []float64{0, -12, 12, -0.00001, 89.999, -1.0 / 65536, -9.3, 179, -179.5}[c.N(9)]
		case 17:
			s := c01String(c)
			switch c.N(7) {
			case 0:
				f.FamilyName = s
			case 1:
				f.Description = s
			case 2:
				f.SampleText = s
			case 3:
				f.Copyright = s
			case 4:
				f.Trademark = s
			case 5:
				f.License = s
			case 6:
				f.LicenseURL = s
			}
		case 18:
			switch c.N(6) {
			case 0:
				f.IsBold = !f.IsBold
			case 1:
				f.IsItalic = !f.IsItalic
			case 2:
				f.IsOblique = !f.IsOblique
			case 3:
				f.IsRegular = !f.IsRegular
			case 4:
				f.IsSerif = !f.IsSerif
			case 5:
				f.IsScript = !f.IsScript
			}
		case 19:
			f.PermUse = os2.Permissions(c.N(4))
		case 20:
			c01Metrics(c, f, e16)
		case 21:
			installed = c01Cmap(c, f, n)
		}
	}
	if f.CMapTable != nil && c.P(1, 20) {
		installed = c01Cmap(c, f, n)
	}
	if c.P(1, 12) {
		c01Plain(c, f.Gsub)
		c01Plain(c, f.Gpos)
	}
	if c.P(1, 12) {
		f.UnitsPerEm = []uint16{16, 64, 999, 1000, 1001, 1024, 2047, 16384, 16383, uint16(c.R(16, 16384))}[c.N(10)]
		q := 1 / float64(f.UnitsPerEm)
		f.FontMatrix = matrix.Matrix{q, 0, 0, q, 0, 0}
	}
	if o, ok := f.Outlines.(*cff.Outlines); ok && c.P(1, 4) {
		c01Dicts(c, o)
	}
	if o, ok := f.Outlines.(*cff.Outlines); ok && c.P(1, 12) {
		q := 1 / float64(f.UnitsPerEm)
		f.FontMatrix = []matrix.Matrix{
			{q, 0, q / 4, q, 0, 0},
			{q / 2, 0, 0, q, 0, 0},
			{q, 0, 0, q, 10, -20},
			{0.001, 0, 0, 0.001, 0, 0},
			{0, q, -q, 0, 0, 0},
		}[c.N(5)]
		_ = o
	}
	if c.P(1, 60) {
		c01Limit(c, f)
	}
	if f.ModificationTime.IsZero() && f.CreationTime.IsZero() {
		f.ModificationTime = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	return f, installed
}

func c01Time(c *core.C) time.Time {
	zone := time.UTC
	if c.P(1, 2) {
		zone = time.FixedZone("X", (c.N(29)-14)*3600)
	}
	switch c.N(5) {
	case 0:
		return time.Date(2000+c.N(40), time.Month(1+c.N(12)), 1+c.N(31), c.N(24), c.N(60), c.N(60), 0, zone)
	case 1:
		return time.Date(2000+c.N(40), time.Month(1+c.N(12)), 1, 23, 59, 59, 999_999_999, zone)
	case 2:
		return time.Date(1904, 1, 1, 0, 0, 1+c.N(10), 0, zone)
	case 3:
		return time.Date([]int{1, 1600, 1903, 1969, 1970, 2038, 2040, 9999, 20000}[c.N(9)], 6, 1, c.N(24), 0, 0, 1, zone)
	default:
		return time.Date(2024, 2, 29, 0, 0, 0, c.N(1_000_000_000), zone)
	}
}

func c01String(c *core.C) string {
	switch c.N(7) {
	case 0:
		return ""
	case 1:
		return []string{"Bold", "Italic", "Semi Bold", "Foo Italic", "Regular", "Version 3.5", "Black Light", "Oblique"}[c.N(8)]
	case 2:
		return []string{" x ", "\x00", "a\x00b", "\n", "\ufeffx", "x\u00a0", "\u2028", "é", "e\u0301", "Ω≈ç√", "€¤"}[c.N(11)]
	case 3:
		return string([]rune{rune(0x10000 + c.N(0x100000)), 'x', rune(0xE000 + c.N(100)), 0xD7FF, 0xFFFD, 0xFFFF})
	case 4:
		return strings.Repeat("long text. ", 1+c.N(400))
	case 5:
		return "© 2024 “A” ™ – ÄÖÜ"
	default:
		n := 1 + c.N(12)
		rr := make([]rune, n)
		for i := range rr {
			rr[i] = rune(c.N(0x250))
		}
		return string(rr)
	}
}

// c01Limit makes the size of a part of the file equal (or close) to a value
// where the format of the file changes.
func c01Limit(c *core.C, f *sfnt.Font) {
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		n := len(o.Glyphs)
		target := []int{65532, 65534, 65536, 65538, 131068, 131070, 131072, 131074, 131076}[c.N(9)]
		contour := []glyf.Contour{{{X: 1, Y: 2, OnCurve: true}}}
		for k := 0; k < min(n, 3); k++ {
			g := k
			if c.P(1, 2) && k == 0 {
				g = n - 1
			}
			o.Glyphs[g] = gen.Simple(contour, nil, 0)
			d := target - len(o.Glyphs.Encode().GlyfData)
			if d <= 0 {
				return
			}
			o.Glyphs[g] = gen.Simple(contour, make([]byte, min(d, 65534)), 0)
		}
	case *cff.Outlines:
		target := []int{254, 255, 256, 65534, 65535, 65536}[c.N(6)]
		if target < 300 { // string INDEX
			for i := 0; i < 3; i++ {
				strs, _ := c01IndexSizes(f)
				d := target - strs
				if strs < 0 || d <= 0 {
					return
				}
				f.Trademark += strings.Repeat("t", d)
			}
			return
		}
		g := cff.NewGlyph(o.Glyphs[0].Name, o.Glyphs[0].Width)
		if k := len(o.Glyphs) - 1; c.P(1, 2) {
			g = cff.NewGlyph(o.Glyphs[k].Name, o.Glyphs[k].Width)
			o.Glyphs[k] = g
		} else {
			o.Glyphs[0] = g
		}
		g.MoveTo(0, 0)
		x, y := 0, 0
		for i := 0; i < 6; i++ {
			_, size := c01IndexSizes(f)
			d := target - size
			if size < 0 || d == 0 || d < 0 && len(g.Cmds) <= -d {
				return
			}
			if d < 0 {
				g.Cmds = g.Cmds[:len(g.Cmds)+d]
				last := g.Cmds[len(g.Cmds)-1].Args
				x, y = int(last[0]), int(last[1])
				continue
			}
			for ; d > 300; d -= 31 {
				q := 0.25 + float64(len(g.Cmds)%2)/2
				g.CurveTo(q, 20+q, q-30, q+0.125, q/2, -q)
				x, y = 0, 0
			}
			for j := 0; j < d-d/49; j++ {
				k := len(g.Cmds)
				if k%2 == 0 {
					x = k / 2 % 2
				} else {
					y = k / 2 % 2
				}
				g.LineTo(float64(x), float64(y))
			}
		}
	}
}

// c01IndexSizes returns the number of bytes in the string INDEX and in the
// CharStrings INDEX of the CFF table of a font.
func c01IndexSizes(f *sfnt.Font) (strs, chars int) {
	strs, chars = -1, -1
	var buf bytes.Buffer
	var err error
	if v, _ := core.Catch(func() { _, err = f.Write(&buf) }); v != nil && runtime.SimOver() != 0 {
		panic(v)
	} else if v != nil || err != nil {
		return
	}
	_, recs := gen.ParseSfntLoose(buf.Bytes())
	i := slices.IndexFunc(recs, func(t gen.TableRec) bool { return t.Tag == "CFF " })
	if i < 0 || len(recs[i].Data) < 4 {
		return
	}
	d := recs[i].Data
	be := func(b []byte) (x int) {
		for _, v := range b {
			x = x<<8 | int(v)
		}
		return
	}
	index := func(pos int) (start, size, next int) {
		if pos < 0 || pos+2 > len(d) {
			return 0, -1, -1
		}
		n := be(d[pos : pos+2])
		if n == 0 {
			return pos + 2, 0, pos + 2
		}
		if pos+3 > len(d) {
			return 0, -1, -1
		}
		os := int(d[pos+2])
		base := pos + 3 + (n+1)*os
		if base > len(d) || os < 1 || os > 4 {
			return 0, -1, -1
		}
		size = be(d[base-os:base]) - 1
		return base, size, base + size
	}
	_, _, pos := index(int(d[2]))
	top, topLen, pos := index(pos)
	_, strs, _ = index(pos)
	if topLen < 0 || top+topLen > len(d) {
		return
	}
	val := 0
	for b := d[top : top+topLen]; len(b) > 0; {
		k, v := 1, 0
		switch x := b[0]; {
		case x == 17:
			_, chars, _ = index(val)
			return
		case x == 12:
			k = 2
		case x == 28 && len(b) >= 3:
			k, v = 3, be(b[1:3])
		case x == 29 && len(b) >= 5:
			k, v = 5, be(b[1:5])
		case x == 30:
			for k < len(b) && b[k]&15 != 15 {
				k++
			}
			k++
		case x >= 32 && x <= 246:
			v = int(x) - 139
		case x >= 247 && x <= 250 && len(b) >= 2:
			k, v = 2, (int(x)-247)*256+int(b[1])+108
		case x >= 251 && x <= 254 && len(b) >= 2:
			k = 2
		}
		val = v
		b = b[min(k, len(b)):]
	}
	return
}

// c01Metrics gives glyphs special widths and outlines.
func c01Metrics(c *core.C, f *sfnt.Font, e16 func() funit.Int16) {
	n := f.NumGlyphs()
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		switch c.N(6) {
		case 0:
			o.Widths[c.N(n)] = e16()
		case 1: // a run of equal widths at the end
			k := c.N(n + 1)
			for i := k; i < n; i++ {
				o.Widths[i] = 600
			}
		case 2:
			w := e16()
			for i := range o.Widths {
				o.Widths[i] = w
			}
		case 3: // size of the glyf table near the limit of the short loca format
			total := 131070 - 200 + c.N(400)
			for _, g := range []int{0, 1, 2, n - 1} {
				if g >= n || total < 20 {
					break
				}
				k := min(total, 60000)
				total -= k
				o.Glyphs[g] = gen.Simple([]glyf.Contour{{{X: 1, Y: 2, OnCurve: true}}}, make([]byte, k), 0)
			}
		case 4:
			g := c.N(n)
			o.Glyphs[g] = gen.Simple([]glyf.Contour{{{X: -32768, Y: -32768, OnCurve: true}, {X: -1, Y: -1, OnCurve: true}, {X: 32766, Y: 32766}}}, nil, 0)
		case 5:
			if o.Names != nil && n > 1 {
				nm := []string{"", "A", "ffi.alt", ".notdef", "space", strings.Repeat("x", 255), "a b", "ä"}
				o.Names[1+c.N(n-1)] = nm[c.N(len(nm))]
			}
		}
		if c.P(1, 4) {
			for _, t := range []string{"cvt ", "fpgm", "prep", "gasp"} {
				switch c.N(4) {
				case 0:
					delete(o.Tables, t)
				case 1:
					o.Tables[t] = c.Bytes(c.N(8))
				case 2:
					o.Tables[t] = []byte{}
				}
			}
		}
		if o.Maxp != nil && c.P(1, 4) {
			v := reflect.ValueOf(o.Maxp).Elem()
			for i := 0; i < v.NumField(); i++ {
				v.Field(i).SetUint([]uint64{0, 1, 255, 256, 65535}[c.N(5)])
			}
		}
	case *cff.Outlines:
		switch c.N(9) {
		case 7, 8:
			g := c.N(n)
			o.Glyphs[g] = c01Aligned(c, o.Glyphs[g].Name)
		case 0:
			o.Glyphs[c.N(n)].Width = float64(e16())
		case 1:
			w := float64(e16())
			for _, g := range o.Glyphs {
				g.Width = w
			}
		case 2: // huge differences between widths
			for _, g := range o.Glyphs {
				g.Width = float64([]int{0, 32767, -32768, 107, 108, 1131, 1132}[c.N(7)])
			}
		case 3:
			o.Glyphs[c.N(n)].Width = float64(c.N(8000)) / 8
		case 4: // coordinates
			g := cff.NewGlyph(o.Glyphs[n-1].Name, float64(c.N(1000)))
			v := func() float64 {
				return []float64{0, 107, 108, -107, -108, 1131, 1132, -1131, -1132, 15999, -15999, 0.25, 0.125, 1.0 / 65536, 1000.5, 3.3}[c.N(16)]
			}
			for i, k := 0, c.R(1, 3); i < k; i++ {
				g.MoveTo(v(), v())
				for j, m := 0, c.N(60); j < m; j++ {
					if c.P(1, 3) {
						g.LineTo(v(), v())
					} else {
						g.CurveTo(v(), v(), v(), v(), v(), v())
					}
				}
			}
			o.Glyphs[n-1] = g
		case 5: // stem hints
			g := o.Glyphs[c.N(n)]
			g.HStem, g.VStem = nil, nil
			g.Cmds = nil
			x := float64(-50)
			for i, k := 0, c.N(49); i < k; i++ {
				x += float64(c.N(30))
				g.HStem = append(g.HStem, x, x+float64(c.N(40)))
				x = g.HStem[len(g.HStem)-1]
			}
			x = 0
			for i, k := 0, c.N(49); i < k; i++ {
				x += float64(c.N(30))
				g.VStem = append(g.VStem, x, x+float64(c.N(40)))
				x = g.VStem[len(g.VStem)-1]
			}
			nh := (len(g.HStem) + len(g.VStem)) / 2
			for i := 0; i < 2; i++ {
				if nh > 0 && c.P(1, 2) {
					op := cff.OpHintMask
					if c.P(1, 3) {
						op = cff.OpCntrMask
					}
					b := c.Bytes((nh + 7) / 8)
					if nh%8 != 0 {
						b[len(b)-1] &= byte(0xFF << (8 - nh%8))
					}
					var args []float64
					for _, x := range b {
						args = append(args, float64(x))
					}
					g.Cmds = append(g.Cmds, cff.GlyphOp{Op: op, Args: args})
				}
				g.MoveTo(float64(c.N(100)), float64(c.N(100)))
				g.LineTo(float64(c.N(100)), 700)
				g.LineTo(50, float64(c.N(100)))
			}
		case 6:
			c01Dicts(c, o)
		}
	}
}

// c01Aligned makes a glyph whose segments are often parallel to the axes or
// symmetric, with hint masks in the middle of paths, so that the special forms
// of the charstring operators are used.
func c01Aligned(c *core.C, name string) *cff.Glyph {
	g := cff.NewGlyph(name, float64(c.N(1000)))
	nStems := 0
	if c.P(1, 3) {
		nStems = c.R(1, 9)
		x := 0.0
		for i := 0; i < nStems; i++ {
			x += float64(1 + c.N(20))
			if c.P(1, 2) {
				g.HStem = append(g.HStem, x, x+10)
			} else {
				g.VStem = append(g.VStem, x, x+10)
			}
			x += 10
		}
	}
	mask := func() {
		b := c.Bytes((nStems + 7) / 8)
		if nStems%8 != 0 {
			b[len(b)-1] &= byte(0xFF << (8 - nStems%8))
		}
		var args []float64
		for _, x := range b {
			args = append(args, float64(x))
		}
		op := cff.OpHintMask
		if c.P(1, 4) {
			op = cff.OpCntrMask
		}
		g.Cmds = append(g.Cmds, cff.GlyphOp{Op: op, Args: args})
	}
	zero := c.N(5) // in units of 1/5
	scale := []float64{1, 1, 1, 0.5, 1.0 / 65536}[c.N(5)]
	size := []int{3, 60, 400, 2400}[c.N(4)]
	var x, y float64
	d := func() float64 {
		if c.P(zero, 5) {
			return 0
		}
		return float64(c.N(2*size+1)-size) * scale
	}
	for i, k := 0, c.R(1, 2); i < k; i++ {
		if nStems > 0 && c.P(1, 3) {
			mask()
		}
		x, y = x+d(), y+d()
		g.MoveTo(x, y)
		last := 0.0 // vertical part of the previous curve
		curve := func(a, b, cx, cy, e, f float64) {
			x1, y1 := x+a, y+b
			x2, y2 := x1+cx, y1+cy
			x, y = x2+e, y2+f
			last = b + cy + f
			g.CurveTo(x1, y1, x2, y2, x, y)
		}
		mode := c.N(6)
		steady := c.P(1, 2) // long runs of segments of the same kind
		m := []int{2, 4, 9, 30, 12 + c.N(2), 24 + c.N(2)}[c.W(3, 4, 3, 1, 1, 1)]
		if steady && c.P(1, 2) { // runs which just fill the argument stack
			m = []int{20 + c.N(7), 45 + c.N(7), 5 + c.N(5), 9 + c.N(6), 9 + c.N(6), 4}[mode]
			if mode != 1 && c.P(2, 3) {
				zero = 0
			}
		}
		odd := func(j int) bool {
			if steady {
				return j == m-1 && c.P(1, 2)
			}
			return c.P(1, 5)
		}
		for j := 0; j < m; j++ {
			if nStems > 0 && !steady && c.P(1, 12) {
				mask()
			}
			md := mode
			if !steady && c.P(1, 6) {
				md = c.N(6)
			}
			switch md {
			case 0: // lines
				x, y = x+d(), y+d()
				g.LineTo(x, y)
			case 1: // alternating horizontal and vertical lines
				if (j&1 == 0) != c.P(1, 15) {
					x += d()
				} else {
					y += d()
				}
				g.LineTo(x, y)
			case 2: // curves
				curve(d(), d(), d(), d(), d(), d())
			case 3: // alternating horizontal and vertical tangents
				var e float64
				if odd(j) {
					e = d()
				}
				if j&1 == 0 {
					curve(d(), 0, d(), d(), e, d())
				} else {
					curve(0, d(), d(), d(), d(), e)
				}
			case 4: // parallel tangents
				var e float64
				if odd(j) || j == 0 && c.P(1, 3) {
					e = d()
				}
				if c.P(1, 8) && !steady || j == 0 && c.P(1, 2) {
					curve(d(), e, d(), d(), 0, d())
				} else {
					curve(d(), e, d(), d(), d(), 0)
				}
			case 5: // flex: the second curve returns to the height of the first
				if j&1 == 0 {
					var e float64
					if c.P(1, 3) {
						e = d()
					}
					curve(d(), e, d(), d(), d(), 0)
				} else {
					dy := -last
					if c.P(1, 6) {
						dy += d()
					}
					if c.P(1, 2) {
						curve(d(), 0, d(), dy, d(), 0)
					} else {
						h := d()
						curve(d(), 0, d(), h, d(), dy-h)
					}
				}
			}
		}
		if steady && c.P(2, 3) { // mixed operators
			if mode < 2 {
				curve(d(), d(), d(), d(), d(), d())
			} else {
				x, y = x+d(), y+d()
				g.LineTo(x, y)
			}
		}
	}
	return g
}

// c01Dicts changes the CFF private dictionaries, the encoding and CIDs.
func c01Dicts(c *core.C, o *cff.Outlines) {
	n := len(o.Glyphs)
	p := o.Private[c.N(len(o.Private))]
	switch c.N(8) {
	case 0:
		p.BlueValues = []funit.Int16{-20, 0, 400, 410, 500, 510, 600, 610, 700, 710, 800, 805, 900, 905}[:2*c.N(8)]
	case 1:
		p.OtherBlues = []funit.Int16{-500, -490, -400, -390, -300, -290, -250, -245, -220, -210}[:2*c.N(6)]
	case 2:
		p.BlueScale = []float64{0, 0.039625, 0.05, 0.1, 1.0 / 3, 0.000001, 1, 0.04, 0.0396, 0.03963, 0.0375}[c.N(11)]
	case 3:
		p.BlueShift = int32([]int{0, 7, -1, 32768, -32769, 1 << 30, 6, 8}[c.N(8)])
	case 4:
		p.BlueFuzz = int32([]int{0, 1, 2, -107, 108, 1132}[c.N(6)])
	case 5:
		p.StdHW, p.StdVW = float64(c.N(1000))/8, float64(c.N(3))
	case 6:
		if o.ROS == nil {
			o.Encoding = make([]glyph.ID, 256)
			// the encoded glyphs must be contiguous
			codes := c.Perm(256)
			k := 0
			if n > 1 {
				k = c.R(0, min(n-1, 255))
			}
			for i := 0; i < k; i++ {
				o.Encoding[codes[i]] = glyph.ID(i + 1)
			}
			if k > 0 && c.P(1, 2) { // some glyphs have several codes
				for i, m := k, k+c.N(256-k); i < m; i++ {
					o.Encoding[codes[i]] = glyph.ID(1 + c.N(k))
				}
			}
		} else {
			o.ROS.Registry = c01String(c)
			o.ROS.Supplement = int32([]int{0, 6, 65535, -1}[c.N(4)])
		}
	case 7:
		if o.ROS != nil && n > 1 {
			id := 65535
			for g := n - 1; g > 0; g-- {
				o.GIDToCID[g] = cid.CID(id)
				id = max(g-1, id-1-c.N(2))
			}
		} else if n > 1 {
			nm := []string{"A", "a", "space", "Asmall", "onefitted", strings.Repeat("y", 300), "x(y)"}[c.N(7)]
			for _, g := range o.Glyphs {
				if g.Name == nm {
					return
				}
			}
			std := slices.Equal(o.Encoding, cff.StandardEncoding(o.Glyphs))
			o.Glyphs[1+c.N(n-1)].Name = nm
			if std {
				o.Encoding = cff.StandardEncoding(o.Glyphs)
			}
		}
	}
}

// c01Cmap replaces the character map.  If the new map was installed using
// InstallCMap, the function returns the map.
func c01Cmap(c *core.C, f *sfnt.Font, n int) map[rune]glyph.ID {
	t := cmap.Table{}
	m := map[rune]glyph.ID{}
	sub := func() cmap.Subtable {
		clear(m)
		m12 := cmap.Format12{}
		m4 := cmap.Format4{}
		code := c.N(200)
		for i, k := 0, c.Size(120); i < k; i++ {
			g := glyph.ID(c.N(n))
			if c.P(1, 2) {
				g = glyph.ID(i % n)
			}
			if g != 0 {
				m12[uint32(code)] = g
				m[rune(code)] = g
				if code < 65536 {
					m4[uint16(code)] = g
				}
			}
			code++
			switch c.W(8, 3, 1, 1) {
			case 1:
				code += c.N(20)
			case 2:
				code += c.N(3000)
			case 3:
				code = []int{0xFFFE, 0xFFFF, 0x10000, 0xD800, 0x10FFFF}[c.N(5)]
			}
			if code > 0x10FFFF {
				break
			}
		}
		if len(m4) == len(m12) && c.P(1, 2) || c.P(1, 4) {
			if len(m4) < len(m12) {
				maps.DeleteFunc(m, func(r rune, _ glyph.ID) bool { return r > 0xFFFF })
			}
			return m4
		}
		return m12
	}
	if c.P(1, 3) {
		f.InstallCMap(sub())
		return m
	}
	for i, k := 0, c.N(5); i < k; i++ {
		key := []cmap.Key{
			{PlatformID: 0, EncodingID: 0}, {PlatformID: 0, EncodingID: 3}, {PlatformID: 0, EncodingID: 4},
			{PlatformID: 0, EncodingID: 6}, {PlatformID: 1, EncodingID: 0}, {PlatformID: 3, EncodingID: 0},
			{PlatformID: 3, EncodingID: 1}, {PlatformID: 3, EncodingID: 10}, {PlatformID: 3, EncodingID: 3}, {PlatformID: 4, EncodingID: 255},
		}[c.N(10)]
		d := sub().Encode(0)
		if key.PlatformID == 1 {
			f0 := &cmap.Format0{}
			copy(f0.Data[:], c.Bytes(256))
			for i := range f0.Data {
				f0.Data[i] = byte(int(f0.Data[i]) % min(n, 256))
			}
			if c.P(1, 2) {
				key.Language = uint16(c.N(4))
			}
			d = f0.Encode(key.Language)
		}
		t[key] = d
	}
	f.CMapTable = t
	return nil
}
