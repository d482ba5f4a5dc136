package gen

import (
	"fmt"
	"time"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"

	"verif/sim/worker/core"
)

// Outline kinds.
const (
	Glyf = iota
	CFF
	CID
	NumKinds
)

// FOpt controls font generation.
type FOpt struct {
	Kind      int // Glyf, CFF, CID, or -1
	MinGlyphs int
	MaxGlyphs int
	Chars     []rune // candidate characters for the cmap
	NoCmap    bool
	Layout    bool // may contain GSUB, GPOS, GDEF
	GsubTypes []int
	GposTypes []int
	Plain     bool // ASCII-only strings, standard style values
	AllNames  bool // TrueType fonts always have a full set of names
	Clean     bool // glyph names are unique
	MaxLookup int
	FixedUPM  bool
	Required  bool // allow required features
	Big       bool // many glyphs, most of them trivial, with long names
}

var DefaultChars = []rune("AHxfil fjTVoabcdeyzgqk.,-0123")
var ExtraChars = []rune{0xFB00, 0xFB01, 0xFB02, 0xFB03, 0xFB04, 0xE4, 0x301, 0x308, 0x391, 0x3b1, 0x5d0, 0x0, 0xFFFF, 0xE000, 0x4E00}
var AstralChars = []rune{0x10400, 0x1F600, 0x10FFFF, 0x10000}

func (o *FOpt) num(c *core.C) int {
	lo, hi := o.MinGlyphs, o.MaxGlyphs
	if lo < 1 {
		lo = 1
	}
	if hi < lo {
		hi = lo
	}
	if hi > lo+8 && !o.Big && !c.P(1, 3) {
		hi = lo + 8
	}
	return c.R(lo, hi)
}

// Simple encodes a TrueType simple glyph.
func Simple(contours []glyf.Contour, instr []byte, style int) *glyf.Glyph {
	g := &glyf.Glyph{}
	var enc []byte
	n := 0
	for _, cc := range contours {
		n += len(cc)
		enc = append(enc, byte((n-1)>>8), byte(n-1))
	}
	enc = append(enc, byte(len(instr)>>8), byte(len(instr)))
	enc = append(enc, instr...)
	var flags, xs, ys []byte
	var px, py funit.Int16
	var last byte // the most recent flag byte
	run := 0      // how often the flag is repeated
	first := true
	for _, cc := range contours {
		for _, p := range cc {
			var f byte
			if p.OnCurve {
				f |= 1
			}
			put := func(d int, short, same byte, out *[]byte) {
				switch {
				case d == 0 && style&1 == 0:
					f |= same
				case d > -256 && d < 256 && style&2 == 0:
					f |= short
					if d >= 0 {
						f |= same
						*out = append(*out, byte(d))
					} else {
						*out = append(*out, byte(-d))
					}
				default:
					*out = append(*out, byte(d>>8), byte(d))
				}
			}
			put(int(p.X-px), 2, 16, &xs)
			put(int(p.Y-py), 4, 32, &ys)
			px, py = p.X, p.Y
			k := len(flags)
			switch {
			case style&4 == 0 && run > 0 && last == f && run < 255:
				flags[k-1]++
				run++
			case style&4 == 0 && run == 0 && k > 0 && last == f:
				flags[k-1] = f | 8
				flags = append(flags, 1)
				run = 1
			default:
				flags = append(flags, f)
				last, run = f, 0
			}
			if first {
				g.LLx, g.URx, g.LLy, g.URy = p.X, p.X, p.Y, p.Y
				first = false
			}
			g.LLx, g.URx = min(g.LLx, p.X), max(g.URx, p.X)
			g.LLy, g.URy = min(g.LLy, p.Y), max(g.URy, p.Y)
		}
	}
	enc = append(enc, flags...)
	enc = append(enc, xs...)
	enc = append(enc, ys...)
	g.Data = glyf.SimpleGlyph{NumContours: int16(len(contours)), Encoded: enc}
	return g
}

func ttGlyph(c *core.C, gid, n int, depth []int) *glyf.Glyph {
	switch c.W(1, 6, 3) {
	case 0:
		return nil
	case 2:
		if gid > 1 {
			g := &glyf.Glyph{}
			comp := glyf.CompositeGlyph{}
			k := c.R(1, 3)
			d := 0
			for i := 0; i < k; i++ {
				ref := c.N(gid)
				if depth[ref] >= 4 {
					ref = 0
				}
				d = max(d, depth[ref]+1)
				fl := glyf.ComponentFlag(0)
				var data []byte
				if c.P(1, 2) {
					fl |= glyf.FlagArg1And2AreWords
					data = append(data, 0, byte(c.N(256)), 0xff, byte(c.N(256)))
				} else {
					data = append(data, byte(c.N(256)), byte(c.N(256)))
				}
				if !c.P(1, 6) {
					fl |= glyf.FlagArgsAreXYValues
				}
				switch c.N(4) {
				case 1:
					fl |= glyf.FlagWeHaveAScale
					data = append(data, 0x20, byte(c.N(256)))
				case 2:
					fl |= glyf.FlagWeHaveAnXAndYScale
					data = append(data, 0x20, 0, 0x40, byte(c.N(256)))
				case 3:
					fl |= glyf.FlagWeHaveATwoByTwo
					data = append(data, 0x20, 0, 0, 1, 0, 2, 0x40, byte(c.N(256)))
				}
				if c.P(1, 4) {
					fl |= glyf.FlagUseMyMetrics
				}
				if c.P(1, 4) {
					fl |= glyf.FlagRoundXYToGrid
				}
				if i+1 < k {
					fl |= glyf.FlagMoreComponents
				}
				comp.Components = append(comp.Components, glyf.GlyphComponent{Flags: fl, GlyphIndex: glyph.ID(ref), Data: data})
			}
			if c.P(1, 4) {
				comp.Instructions = c.Bytes(c.R(1, 7))
				for i := range comp.Components {
					comp.Components[i].Flags |= glyf.FlagWeHaveInstructions
				}
			}
			g.Data = comp
			g.LLx, g.LLy = funit.Int16(c.R(0, 50)), funit.Int16(-c.R(0, 50))
			g.URx, g.URy = g.LLx+funit.Int16(c.R(1, 500)), g.LLy+funit.Int16(c.R(1, 700))
			depth[gid] = d
			return g
		}
	}
	var cc []glyf.Contour
	for i, k := 0, c.R(1, 2); i < k; i++ {
		var ct glyf.Contour
		for j, m := 0, c.R(1, 6); j < m; j++ {
			x, y := c.R(0, 600), c.R(0, 900)-200
			if c.P(1, 5) && len(ct) > 0 {
				x = int(ct[len(ct)-1].X)
			}
			ct = append(ct, glyf.Point{X: funit.Int16(x), Y: funit.Int16(y), OnCurve: !c.P(1, 3)})
		}
		cc = append(cc, ct)
	}
	var instr []byte
	if c.P(1, 4) {
		instr = c.Bytes(c.R(1, 9))
	}
	return Simple(cc, instr, c.N(8))
}

func cffGlyph(c *core.C, name string) *cff.Glyph {
	g := cff.NewGlyph(name, float64(c.R(0, 1000)))
	if c.P(1, 8) {
		return g
	}
	if c.P(1, 3) {
		g.HStem = []float64{float64(c.R(0, 20) - 10), float64(c.R(20, 60))}
		if c.P(1, 2) {
			g.HStem = append(g.HStem, 100, float64(c.R(110, 140)))
		}
	}
	if c.P(1, 3) {
		g.VStem = []float64{float64(c.R(0, 20) + 10), float64(c.R(40, 60))}
	}
	coord := func() float64 {
		v := float64(c.R(0, 1200) - 300)
		if c.P(1, 10) {
			v += 0.5
		}
		return v
	}
	for i, k := 0, c.R(1, 2); i < k; i++ {
		if len(g.HStem)+len(g.VStem) > 0 && c.P(1, 3) {
			g.Cmds = append(g.Cmds, cff.GlyphOp{Op: cff.OpHintMask, Args: []float64{float64(c.R(1, 3) << 6)}})
		}
		x, y := coord(), coord()
		g.MoveTo(x, y)
		for j, m := 0, c.R(1, 6); j < m; j++ {
			switch c.N(4) {
			case 0:
				x += float64(1 + c.N(50))
				g.LineTo(x, y)
			case 1:
				y += float64(1 + c.N(50))
				g.LineTo(x, y)
			case 2:
				x, y = coord(), coord()
				g.LineTo(x, y)
			case 3:
				x1, y1, x2, y2 := coord(), coord(), coord(), coord()
				x, y = coord(), coord()
				g.CurveTo(x1, y1, x2, y2, x, y)
			}
		}
	}
	return g
}

func private(c *core.C) *type1.PrivateDict {
	p := &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}
	if c.P(1, 2) {
		p.BlueValues = []funit.Int16{-10, 0, funit.Int16(c.R(400, 500)), 510}
	}
	if c.P(1, 4) {
		p.OtherBlues = []funit.Int16{-220, -210}
	}
	if c.P(1, 3) {
		p.StdHW, p.StdVW = float64(c.R(0, 90)), float64(c.R(0, 90))
	}
	if c.P(1, 5) {
		p.BlueShift, p.BlueFuzz = int32(c.R(0, 20)), int32(c.R(0, 4))
	}
	if c.P(1, 5) {
		p.BlueScale = 0.0625
	}
	p.ForceBold = c.P(1, 6)
	return p
}

var words = []string{"Sim", "Test", "Font", "A", "Foo Bar", "Bold", "Serif", "x(y)", "Ünï", "日本", "[b]", "a/b"}

func word(c *core.C, plain bool) string {
	if plain {
		return words[c.N(5)]
	}
	return words[c.N(len(words))]
}

func text(c *core.C, plain bool) string {
	switch c.W(4, 2, 1, 1) {
	case 0:
		return ""
	case 1:
		return word(c, plain) + " " + word(c, plain)
	case 2:
		return "(c) 2024 " + word(c, plain)
	default:
		if plain {
			return "text"
		}
		return "© “quoted” \U0001F600 é"
	}
}

// NameFor returns a glyph name usable in fonts.
func NameFor(i int, r rune) string {
	if r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' {
		return string(r)
	}
	return fmt.Sprintf("g%03d", i)
}

// Font generates a font in normal form (one which a write/read cycle should
// return unchanged).
func Font(c *core.C, o *FOpt) *sfnt.Font {
	kind := o.Kind
	if kind < 0 {
		kind = c.N(NumKinds)
	}
	n := o.num(c)
	f := &sfnt.Font{
		FamilyName: word(c, o.Plain),
		Width:      os2.WidthNormal,
		Weight:     os2.WeightNormal,
		UnitsPerEm: 1000,
		Ascent:     funit.Int16(c.R(500, 1000)),
		Descent:    funit.Int16(-c.R(0, 400)),
		LineGap:    funit.Int16(c.R(0, 200)),
		CapHeight:  funit.Int16(c.R(1, 900)),
		XHeight:    funit.Int16(c.R(1, 700)),
		PermUse:    os2.Permissions(c.N(4)),
		Version:    head.Version(uint32(c.R(0, 9))<<16 + uint32(c.N(65536))).Round(),
	}
	base := time.Date(2004, 2, 29, 12, 0, 0, 0, time.UTC)
	f.CreationTime = base.Add(time.Duration(c.N(1<<29)) * time.Second)
	if c.P(3, 4) {
		f.ModificationTime = f.CreationTime.Add(time.Duration(c.N(1<<20)) * time.Second)
	}
	if c.P(1, 3) {
		f.Width = os2.Width(c.R(1, 9))
	}
	if c.P(1, 3) {
		f.Weight = os2.Weight(100 * c.R(1, 9))
		if !o.Plain && c.P(1, 3) {
			f.Weight = os2.Weight(c.R(1, 1000))
		}
	}
	if c.P(1, 4) && !o.FixedUPM {
		f.UnitsPerEm = []uint16{2048, 16, 16384, 1024, 500}[c.N(5)]
	}
	q := 1 / float64(f.UnitsPerEm)
	f.FontMatrix = matrix.Matrix{q, 0, 0, q, 0, 0}
	switch c.W(4, 2, 2, 1) {
	case 0:
		f.IsRegular = c.P(1, 2)
	case 1:
		f.IsBold = true
	case 2:
		f.IsItalic = true
		f.ItalicAngle = -float64(c.R(1, 30)) + float64(c.N(4))/4
		if f.ItalicAngle == 0 {
			f.ItalicAngle = -12
		}
		f.IsOblique = c.P(1, 3)
	case 3:
		f.IsBold, f.IsItalic = true, true
		f.ItalicAngle = -12.5
	}
	if c.P(1, 3) {
		f.IsSerif = true
	} else if c.P(1, 4) {
		f.IsScript = true
	}
	if c.P(1, 3) {
		f.CodePageRange = os2.CodePageRange(c.U(1 << 62))
	}
	f.UnderlinePosition = funit.Float64(-c.R(0, 200))
	f.UnderlineThickness = funit.Float64(c.R(0, 100))
	f.Description, f.SampleText = text(c, o.Plain), text(c, o.Plain)
	f.Copyright, f.Trademark = text(c, o.Plain), text(c, o.Plain)
	f.License, f.LicenseURL = text(c, o.Plain), text(c, o.Plain)

	// character map
	chars := make([]rune, n) // character of each glyph (0: none)
	var cm12 cmap.Format12
	if !o.NoCmap {
		pool := o.Chars
		if pool == nil {
			pool = append(append([]rune{}, DefaultChars...), ExtraChars...)
			if c.P(1, 4) {
				pool = append(pool, AstralChars...)
			}
		}
		cm12 = cmap.Format12{}
		for g := 1; g < n; g++ {
			if trivialCmap := o.Big && g%8 != 0; trivialCmap || c.P(1, 6) {
				continue
			}
			r := pool[c.N(len(pool))]
			if g < len(pool) && c.P(3, 4) {
				r = pool[g-1]
			}
			if _, dup := cm12[uint32(r)]; dup {
				continue
			}
			cm12[uint32(r)] = glyph.ID(g)
			chars[g] = r
			if c.P(1, 8) {
				r2 := pool[c.N(len(pool))]
				if _, dup := cm12[uint32(r2)]; !dup {
					cm12[uint32(r2)] = glyph.ID(g)
				}
			}
		}
		InstallCmap(c, f, cm12)
	}

	// names
	names := make([]string, n)
	used := map[string]bool{}
	names[0] = ".notdef"
	used[".notdef"] = true
	for g := 1; g < n; g++ {
		nm := NameFor(g, chars[g])
		if used[nm] {
			nm = fmt.Sprintf("g%03d", g)
		}
		if o.Big && g%4 != 0 {
			nm = fmt.Sprintf("glyph.with.long.name%05d", g)
		}
		used[nm] = true
		names[g] = nm
	}
	trivial := func(g int) bool { return o.Big && g > 5 && g%16 != 0 }

	switch kind {
	case Glyf:
		out := &glyf.Outlines{Tables: map[string][]byte{}, Maxp: &maxp.TTFInfo{
			MaxPoints: uint16(c.R(0, 500)), MaxContours: uint16(c.R(0, 50)), MaxZones: uint16(c.R(1, 2)),
			MaxStackElements: uint16(c.R(0, 300)), MaxComponentDepth: uint16(c.R(0, 5)), MaxSizeOfInstructions: uint16(c.R(0, 900)),
		}}
		depth := make([]int, n)
		w := c.R(0, 1000)
		for g := 0; g < n; g++ {
			if trivial(g) {
				out.Glyphs = append(out.Glyphs, nil)
				out.Widths = append(out.Widths, funit.Int16(500+g%3))
				continue
			}
			out.Glyphs = append(out.Glyphs, ttGlyph(c, g, n, depth))
			if !c.P(1, 3) {
				w = c.R(0, 1000)
			}
			out.Widths = append(out.Widths, funit.Int16(w))
		}
		if o.AllNames || c.P(2, 3) {
			out.Names = names
		}
		for _, t := range []string{"cvt ", "fpgm", "prep", "gasp"} {
			if c.P(1, 4) {
				out.Tables[t] = c.Bytes(2 * c.R(1, 9))
			}
		}
		f.Outlines = out
	case CFF, CID:
		out := &cff.Outlines{FDSelect: func(glyph.ID) int { return 0 }}
		for g := 0; g < n; g++ {
			nm := names[g]
			if kind == CID {
				nm = ""
			}
			if trivial(g) {
				out.Glyphs = append(out.Glyphs, cff.NewGlyph(nm, float64(500+g%3)))
				continue
			}
			out.Glyphs = append(out.Glyphs, cffGlyph(c, nm))
		}
		if kind == CFF {
			out.Private = []*type1.PrivateDict{private(c)}
			out.Encoding = make([]glyph.ID, 256)
			switch c.N(3) {
			case 0:
				out.Encoding = cff.StandardEncoding(out.Glyphs)
			case 1:
				code := c.N(40)
				for g := 1; g < n && code < 256; g++ {
					out.Encoding[code] = glyph.ID(g)
					code += 1 + c.N(2)
				}
			}
		} else {
			np := c.R(1, 3)
			for i := 0; i < np; i++ {
				out.Private = append(out.Private, private(c))
				m := matrix.Identity
				if c.P(1, 6) {
					m = matrix.Matrix{0.5, 0, 0, 0.5, 0, 0}
				}
				out.FontMatrices = append(out.FontMatrices, m)
			}
			sel := make([]int, n)
			cur := 0
			for g := range sel {
				if !trivial(g) && c.P(1, 3) {
					cur = c.N(np)
				} else if trivial(g) {
					cur = g / 7 % np
				}
				sel[g] = cur
			}
			out.FDSelect = func(g glyph.ID) int { return sel[g] }
			out.ROS = &cid.SystemInfo{Registry: "Adobe", Ordering: []string{"Identity", "Japan1", "Sim"}[c.N(3)], Supplement: int32(c.N(8))}
			id := 0
			for g := 0; g < n; g++ {
				out.GIDToCID = append(out.GIDToCID, cid.CID(id))
				id += 1
				if !trivial(g) && c.P(1, 4) {
					id += min(c.N(20), 65535-id-(n-g))
				}
			}
		}
		f.Outlines = out
	}

	if o.Layout && n > 1 {
		sets := 0
		if c.P(1, 2) {
			sets = c.N(3)
			f.Gdef = Gdef(c, n, sets)
		}
		mx := o.MaxLookup
		if mx == 0 {
			mx = 4
		}
		gs, gp := o.GsubTypes, o.GposTypes
		if gs == nil {
			gs = GsubTypes
		}
		if gp == nil {
			gp = GposTypes
		}
		if c.P(2, 3) && len(gs) > 0 {
			lo := &LOpt{N: n, Types: gs, Max: mx, Flags: AllFlags, MarkSets: sets}
			f.Gsub = Info(c, lo.LookupList(c), GsubTags, 4, o.Required, "liga")
		}
		if c.P(2, 3) && len(gp) > 0 {
			lo := &LOpt{N: n, Gpos: true, Types: gp, Max: mx, Flags: AllFlags, MarkSets: sets}
			f.Gpos = Info(c, lo.LookupList(c), GposTags, 4, o.Required, "kern")
		}
	}
	return f
}

// InstallCmap stores a character map in one of the supported forms.
func InstallCmap(c *core.C, f *sfnt.Font, m cmap.Format12) {
	bmp := true
	latin := true
	for r := range m {
		if r > 0xFFFF {
			bmp = false
		}
		if r > 0x7E || m[r] > 255 {
			latin = false
		}
	}
	f4 := cmap.Format4{}
	for r, g := range m {
		if r <= 0xFFFF {
			f4[uint16(r)] = g
		}
	}
	f.CMapTable = cmap.Table{}
	switch {
	case !bmp:
		d := m.Encode(0)
		f.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 10}] = d
		if c.P(1, 2) {
			f.CMapTable[cmap.Key{PlatformID: 0, EncodingID: 4}] = d
		}
		if c.P(1, 2) {
			f.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 1}] = f4.Encode(0)
		}
	case latin && c.P(1, 6):
		f0 := &cmap.Format0{}
		for r, g := range m {
			f0.Data[r] = byte(g)
		}
		f.CMapTable[cmap.Key{PlatformID: 1, EncodingID: 0}] = f0.Encode(0)
		if c.P(1, 2) {
			f.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 1}] = f4.Encode(0)
		}
	default:
		d := f4.Encode(0)
		if c.P(1, 5) {
			d = m.Encode(0)
		}
		f.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 1}] = d
		if c.P(1, 2) {
			f.CMapTable[cmap.Key{PlatformID: 0, EncodingID: 3}] = d
		}
	}
}

// Glyph sequence helper: every GID of the info.
func LookupSeq(n int) []gtab.LookupIndex {
	var ll []gtab.LookupIndex
	for i := 0; i < n; i++ {
		ll = append(ll, gtab.LookupIndex(i))
	}
	return ll
}

// Word returns a short family name.
func Word(c *core.C) string { return word(c, false) }
