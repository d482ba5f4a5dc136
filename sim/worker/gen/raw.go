package gen

import (
	"encoding/binary"

	"verif/sim/worker/core"
)

// Blob is a piece of a binary table under construction: a sequence of bytes
// and of offsets (relative to the start of the blob) to other blobs.  The same
// blob can be the target of any number of offsets.
type Blob struct {
	Data []byte
	refs []ref
	pos  int
	mark bool
}

type ref struct {
	at, size int
	to       *Blob
	base     *Blob // offsets are relative to this blob (nil: the blob itself)
}

func (b *Blob) U8(vals ...int) *Blob {
	for _, v := range vals {
		b.Data = append(b.Data, byte(v))
	}
	return b
}

func (b *Blob) U16(vals ...int) *Blob {
	for _, v := range vals {
		b.Data = append(b.Data, byte(v>>8), byte(v))
	}
	return b
}

func (b *Blob) U32(vals ...int) *Blob {
	for _, v := range vals {
		b.Data = append(b.Data, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return b
}

// Off appends 16-bit offsets.
func (b *Blob) Off(to ...*Blob) *Blob {
	for _, t := range to {
		if t != nil {
			b.refs = append(b.refs, ref{at: len(b.Data), size: 2, to: t})
		}
		b.U16(0)
	}
	return b
}

// Off32 appends a 32-bit offset.
func (b *Blob) Off32(to *Blob) *Blob {
	b.refs = append(b.refs, ref{at: len(b.Data), size: 4, to: to})
	return b.U32(0)
}

// Bytes lays out the blob and everything it refers to.
func (b *Blob) Bytes() []byte {
	var order []*Blob
	var visit func(*Blob)
	queue := []*Blob{b}
	b.mark = true
	visit = func(x *Blob) {
		for _, r := range x.refs {
			if !r.to.mark {
				r.to.mark = true
				queue = append(queue, r.to)
			}
		}
	}
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		order = append(order, x)
		visit(x)
	}
	pos := 0
	for _, x := range order {
		x.pos = pos
		pos += len(x.Data)
	}
	out := make([]byte, 0, pos)
	for _, x := range order {
		for _, r := range x.refs {
			d := r.to.pos - x.pos
			if r.size == 2 {
				binary.BigEndian.PutUint16(x.Data[r.at:], uint16(d))
			} else {
				binary.BigEndian.PutUint32(x.Data[r.at:], uint32(d))
			}
		}
		out = append(out, x.Data...)
	}
	return out
}

// RawOpt controls the generation of raw tables.
type RawOpt struct {
	// Heavy: counts may be as large as the file format allows, and pieces of
	// a table are shared by many offsets.
	Heavy bool
	// budget of bytes for the table
	Room int

	charset, enc, fdsel []byte // pieces of a CFF font
	std                 int    // number of a predefined encoding, or -1
}

// prep makes the charset, encoding and FDSelect of a CFF font.
func (o *RawOpt) prep(c *core.C, nGlyphs, nFD int, cid bool, nStr int) {
	b := &Blob{}
	f := c.W(2, 2, 2, 1)
	b.U8(f)
	switch f {
	case 0:
		for i := 1; i < nGlyphs; i++ {
			b.U16(i)
		}
	case 1:
		for left, g := nGlyphs-1, 1; left > 0; {
			k := min(left, 256)
			if k > 1 && len(b.Data) < 100 {
				k = c.R(1, k)
			}
			b.U16(g).U8(k - 1)
			g += k
			left -= k
		}
	case 2:
		k := nGlyphs - 1
		if c.P(1, 6) {
			k = c.R(1, 65536)
		}
		first := 1
		if c.P(1, 6) {
			first = 0x10000 - k + c.R(-1, 1)
		}
		if k > 0 {
			b.U16(first, k-1)
		}
	default:
		b.U16(c.N(9), c.N(9))
	}
	o.charset = b.Data

	b = &Blob{}
	o.std = -1
	if c.P(1, 3) {
		o.std = c.N(2)
	}
	f = c.W(2, 2, 1)
	if c.P(1, 3) {
		f |= 0x80
	}
	b.U8(f)
	k := c.R(0, min(nGlyphs-1, 255))
	switch f & 0x7F {
	case 0:
		b.U8(k)
		for i := 0; i < k; i++ {
			b.U8(i)
		}
	case 1:
		b.U8(1).U8(c.N(200), max(k-1, 0))
	default:
		b.U8(3)
	}
	if f&0x80 != 0 {
		m := c.N(3)
		b.U8(m)
		for i := 0; i < m; i++ {
			b.U8(c.N(256)).U16(c.N(391 + nStr))
		}
	}
	o.enc = b.Data

	b = &Blob{}
	if c.P(1, 2) {
		b.U8(0)
		miss := -1
		if c.P(1, 6) {
			miss = c.N(nGlyphs)
		}
		for i := 0; i < nGlyphs; i++ {
			if i == miss {
				b.U8(nFD)
				continue
			}
			b.U8(i % nFD)
		}
	} else {
		m := 1
		if nGlyphs > 1 {
			m = c.R(1, min(nGlyphs, 6))
		}
		// what is wrong with which range
		miss, at := 0, -1
		if c.P(1, 3) {
			miss, at = c.R(1, 6), c.N(m)
		}
		if miss == 1 {
			m = 0
		}
		b.U8(3).U16(m)
		for i := 0; i < m; i++ {
			fd, g := i%nFD, i
			if i == at {
				switch miss {
				case 2:
					fd = nFD
				case 3:
					g--
				case 4:
					g = nGlyphs
				case 5:
					g = c.N(0x10000)
				}
			}
			b.U16(g).U8(fd)
		}
		if miss == 6 {
			b.U16(nGlyphs + []int{-1, 1}[c.N(2)])
		} else {
			b.U16(nGlyphs)
		}
	}
	o.fdsel = b.Data
}

// count draws the length of a list whose entries take size bytes.
func (o *RawOpt) count(c *core.C, size int) int {
	n := 0
	if o.Heavy {
		switch c.W(2, 2, 2, 2, 1) {
		case 0:
			n = c.N(4)
		case 1:
			n = c.R(1, 40)
		case 2:
			n = c.R(1, 400)
		case 3:
			n = c.R(1, 6000)
		case 4:
			n = c.R(1, 65535)
		}
	} else {
		n = c.Size(12)
	}
	if size > 0 && n*size > o.Room {
		n = o.Room / size
	}
	o.Room -= n * size
	return n
}

// shared draws k targets from a small pool made by f.
func (o *RawOpt) shared(c *core.C, k int, f func() *Blob) []*Blob {
	if k == 0 {
		return nil
	}
	res := make([]*Blob, k)
	pool := []*Blob{f()}
	lim := 5
	if o.Heavy {
		lim = 1
	}
	for len(pool) < lim && len(pool) < k && c.P(1, 2) {
		pool = append(pool, f())
	}
	if len(pool) == 1 {
		for i := range res {
			res[i] = pool[0]
		}
		return res
	}
	s := c.Sub()
	for i := range res {
		res[i] = pool[s.N(len(pool))]
	}
	return res
}

// RawCov makes a coverage table.
func (o *RawOpt) RawCov(c *core.C) *Blob {
	b := &Blob{}
	switch c.W(3, 3, 1) {
	case 0: // list of glyphs
		n := o.count(c, 2)
		b.U16(1, n)
		g := c.N(8)
		for i := 0; i < n; i++ {
			b.U16(g)
			g++
			if i < 200 && c.P(1, 4) {
				g += c.N(5)
			}
		}
	case 1: // ranges
		n := o.count(c, 6)
		if o.Heavy && c.P(1, 2) {
			n = 1
		}
		n = min(n, 10000)
		b.U16(2, n)
		g, idx := c.N(8), 0
		for i := 0; i < n; i++ {
			l := 1
			if i < 50 {
				l = c.R(1, 6)
			}
			if o.Heavy && (i == n-1 || n == 1) && c.P(2, 3) {
				l = 65536 - g
			}
			if g+l > 65536 {
				l = 65536 - g
			}
			b.U16(g, g+l-1, idx)
			idx += l
			g += l
			if i < 50 {
				g += c.N(4)
			}
		}
	case 2:
		b.U16(c.N(4)) // other formats
		b.U16(c.N(3), c.N(9), c.N(9))
	}
	return b
}

// RawClass makes a class definition table.
func (o *RawOpt) RawClass(c *core.C) *Blob {
	b := &Blob{}
	cls := func() int {
		if c.P(1, 12) {
			return c.N(65536)
		}
		return c.N(5)
	}
	switch c.W(3, 3, 1) {
	case 0:
		n := o.count(c, 2)
		b.U16(1, c.N(8), n)
		v := cls()
		for i := 0; i < n; i++ {
			if i < 100 {
				v = cls()
			}
			b.U16(v)
		}
	case 1:
		n := o.count(c, 6)
		if o.Heavy && c.P(1, 2) {
			n = 1
		}
		n = min(n, 10000)
		b.U16(2, n)
		g := c.N(8)
		for i := 0; i < n; i++ {
			l := 1
			if i < 50 {
				l = c.R(1, 6)
			}
			if o.Heavy && i == n-1 && c.P(2, 3) {
				l = 65536 - g
			}
			if g+l > 65536 {
				l = max(65536-g, 1)
			}
			b.U16(g, g+l-1, 1+c.N(4))
			g += l
			if i < 50 {
				g += c.N(4)
			}
		}
	case 2:
		b.U16(c.N(4), c.N(3), c.N(9), c.N(9))
	}
	return b
}

func (o *RawOpt) gids(c *core.C, b *Blob, n int) {
	if n > 64 {
		x := c.N(100)
		for i := 0; i < n; i++ {
			b.U16(x + i)
		}
		return
	}
	for i := 0; i < n; i++ {
		b.U16(c.N(12))
	}
}

func (o *RawOpt) actions(c *core.C, b *Blob) {
	n := o.count(c, 4)
	_ = n
	for i := 0; i < n; i++ {
		if i < 20 {
			b.U16(c.N(5), c.N(4))
		} else {
			b.U16(0, 0)
		}
	}
}

func (o *RawOpt) anchor(c *core.C) *Blob {
	b := (&Blob{}).U16(1+c.N(3), c.N(500), c.N(500), c.N(3), 0)
	return b
}

// rule makes a (chained) sequence rule.
func (o *RawOpt) rule(c *core.C, chained bool) *Blob {
	b := &Blob{}
	if chained {
		n := o.count(c, 2)
		b.U16(n)
		o.gids(c, b, n)
	}
	n := o.count(c, 2)
	if n > 0 || !c.P(1, 6) {
		n++
	}
	if chained {
		b.U16(n)
		o.gids(c, b, max(n-1, 0))
		k := o.count(c, 2)
		b.U16(k)
		o.gids(c, b, k)
		a := o.count(c, 4)
		b.U16(a)
		for i := 0; i < a; i++ {
			b.U16(c.N(4), c.N(4))
		}
		return b
	}
	a := o.count(c, 4)
	b.U16(n, a)
	o.gids(c, b, max(n-1, 0))
	for i := 0; i < a; i++ {
		b.U16(c.N(4), c.N(4))
	}
	return b
}

func (o *RawOpt) ruleSets(c *core.C, b *Blob, chained bool) {
	n := o.count(c, 2)
	b.U16(n)
	b.Off(o.shared(c, n, func() *Blob {
		s := &Blob{}
		k := o.count(c, 2)
		s.U16(k)
		s.Off(o.shared(c, k, func() *Blob { return o.rule(c, chained) })...)
		return s
	})...)
}

func (o *RawOpt) values(c *core.C, b *Blob, f int) {
	for i := 0; i < 16; i++ {
		if f&(1<<i) != 0 {
			b.U16(c.N(64))
		}
	}
}

// format draws a value format.
func (o *RawOpt) format(c *core.C) int {
	switch c.W(4, 1, 1) {
	case 0:
		return c.N(16)
	case 1:
		return c.N(256)
	default:
		return c.N(65536)
	}
}

// context makes a (chained) context subtable.
func (o *RawOpt) context(c *core.C, chained bool) *Blob {
	b := &Blob{}
	cov := func() *Blob { return o.RawCov(c) }
	switch c.N(3) {
	case 0:
		b.U16(1).Off(cov())
		o.ruleSets(c, b, chained)
	case 1:
		b.U16(2).Off(cov())
		b.Off(o.RawClass(c))
		if chained {
			b.Off(o.RawClass(c), o.RawClass(c))
		}
		o.ruleSets(c, b, chained)
	case 2:
		b.U16(3)
		if chained {
			for i := 0; i < 3; i++ {
				n := o.count(c, 2)
				b.U16(n)
				b.Off(o.shared(c, n, cov)...)
			}
			n := o.count(c, 4)
			b.U16(n)
			for i := 0; i < n; i++ {
				b.U16(c.N(4), c.N(4))
			}
		} else {
			n := o.count(c, 2)
			a := o.count(c, 4)
			b.U16(n, a)
			b.Off(o.shared(c, n, cov)...)
			for i := 0; i < a; i++ {
				b.U16(c.N(4), c.N(4))
			}
		}
	}
	return b
}

// RawSubtable makes a subtable of the given lookup type.
func (o *RawOpt) RawSubtable(c *core.C, gpos bool, tp int) *Blob {
	b := &Blob{}
	cov := func() *Blob { return o.RawCov(c) }
	seq := func() *Blob {
		s := &Blob{}
		n := o.count(c, 2)
		s.U16(n)
		o.gids(c, s, n)
		return s
	}
	if !gpos {
		switch tp {
		case 1:
			if c.P(1, 2) {
				return b.U16(1).Off(cov()).U16(c.N(200))
			}
			b.U16(2).Off(cov())
			n := o.count(c, 2)
			b.U16(n)
			o.gids(c, b, n)
		case 2, 3:
			b.U16(1).Off(cov())
			n := o.count(c, 2)
			b.U16(n)
			b.Off(o.shared(c, n, seq)...)
		case 4:
			b.U16(1).Off(cov())
			n := o.count(c, 2)
			b.U16(n)
			b.Off(o.shared(c, n, func() *Blob {
				s := &Blob{}
				k := o.count(c, 2)
				s.U16(k)
				s.Off(o.shared(c, k, func() *Blob {
					l := &Blob{}
					m := o.count(c, 2)
					if m > 0 || !c.P(1, 6) {
						m++
					}
					l.U16(c.N(20), m)
					o.gids(c, l, max(m-1, 0))
					return l
				})...)
				return s
			})...)
		case 5:
			return o.context(c, false)
		case 6:
			return o.context(c, true)
		case 7:
			inner := c.R(1, 8)
			b.U16(1, inner).Off32(o.RawSubtable(c, gpos, inner))
		case 8:
			b.U16(1).Off(cov())
			for i := 0; i < 2; i++ {
				n := o.count(c, 2)
				b.U16(n)
				b.Off(o.shared(c, n, cov)...)
			}
			n := o.count(c, 2)
			b.U16(n)
			o.gids(c, b, n)
		default:
			b.U16(1, 1, 1, 1)
		}
		return b
	}
	switch tp {
	case 1:
		f := o.format(c)
		if c.P(1, 2) {
			b.U16(1).Off(cov()).U16(f)
			o.values(c, b, f)
			return b
		}
		b.U16(2).Off(cov()).U16(f)
		n := o.count(c, 2)
		b.U16(n)
		for i := 0; i < n; i++ {
			o.values(c, b, f)
		}
	case 2:
		f1, f2 := o.format(c), o.format(c)
		if c.P(1, 4) {
			f1, f2 = 0, 0
		}
		if c.P(1, 2) {
			b.U16(1).Off(cov()).U16(f1, f2)
			n := o.count(c, 2)
			b.U16(n)
			b.Off(o.shared(c, n, func() *Blob {
				s := &Blob{}
				k := o.count(c, 6)
				s.U16(k)
				for i := 0; i < k; i++ {
					s.U16(i + 1)
					o.values(c, s, f1)
					o.values(c, s, f2)
				}
				return s
			})...)
			return b
		}
		n1, n2 := o.count(c, 2), o.count(c, 2)
		b.U16(2).Off(cov()).U16(f1, f2).Off(o.RawClass(c), o.RawClass(c)).U16(n1, n2)
		for i := 0; i < n1*n2 && i < 3000; i++ {
			o.values(c, b, f1)
			o.values(c, b, f2)
		}
	case 3:
		b.U16(1).Off(cov())
		n := o.count(c, 4)
		b.U16(n)
		b.Off(o.shared(c, 2*n, func() *Blob { return o.anchor(c) })...)
	case 4, 6:
		marks := &Blob{}
		cc := o.count(c, 2)
		n := o.count(c, 4)
		marks.U16(n)
		an := o.anchor(c)
		for i := 0; i < n; i++ {
			if i < 100 {
				marks.U16(c.N(cc + 1))
			} else {
				marks.U16(0)
			}
			marks.Off(an)
		}
		base := &Blob{}
		k := o.count(c, 2*max(cc, 1))
		base.U16(k)
		base.Off(o.shared(c, min(k*cc, 30000), func() *Blob { return o.anchor(c) })...)
		b.U16(1).Off(cov(), cov()).U16(cc).Off(marks, base)
	case 5:
		marks := &Blob{}
		cc := o.count(c, 2)
		n := o.count(c, 4)
		marks.U16(n)
		an := o.anchor(c)
		for i := 0; i < n; i++ {
			marks.U16(i % max(cc, 1)).Off(an)
		}
		ligs := &Blob{}
		k := o.count(c, 2)
		ligs.U16(k)
		ligs.Off(o.shared(c, k, func() *Blob {
			l := &Blob{}
			m := o.count(c, 2)
			l.U16(m)
			l.Off(o.shared(c, min(m*cc, 20000), func() *Blob { return o.anchor(c) })...)
			return l
		})...)
		b.U16(1).Off(cov(), cov()).U16(cc).Off(marks, ligs)
	case 7:
		return o.context(c, false)
	case 8:
		return o.context(c, true)
	case 9:
		inner := c.R(1, 9)
		b.U16(1, inner).Off32(o.RawSubtable(c, gpos, inner))
	default:
		b.U16(1, 1, 1, 1)
	}
	return b
}

var rawScripts = []string{"DFLT", "latn", "arab", "cyrl", "deva", "dev2", "grek", "zzzz", "hani", "kana", "\x00\x01\x02\x03"}
var rawLangs = []string{"DEU ", "TRK ", "ROM ", "ENG ", "ZHS ", "JAN ", "XXXX", "IPPH", "APPH", "    "}
var rawFeatures = []string{"liga", "kern", "calt", "mark", "mkmk", "locl", "ccmp", "ss01", "\x00\x00\x00\x00"}

// RawGtab makes a GSUB or GPOS table.
func (o *RawOpt) RawGtab(c *core.C, gpos bool) []byte {
	nTypes := 8
	if gpos {
		nTypes = 9
	}
	lookups := &Blob{}
	n := o.count(c, 2)
	lookups.U16(n)
	tp := c.R(1, nTypes)
	if c.P(1, 30) {
		tp = c.N(65536)
	}
	lookups.Off(o.shared(c, n, func() *Blob {
		l := &Blob{}
		t := tp
		if c.P(1, 4) {
			t = c.R(1, nTypes)
		}
		flags := []int{0, 0, 1, 8, 0x10, 0x100, 0x11E, 0xFFFF}[c.N(8)]
		k := o.count(c, 2)
		l.U16(t, flags, k)
		subs := o.shared(c, k, func() *Blob { return o.RawSubtable(c, gpos, t) })
		l.Off(subs...)
		if flags&0x10 != 0 {
			l.U16(c.N(3))
		}
		return l
	})...)

	features := &Blob{}
	nf := o.count(c, 6)
	features.U16(nf)
	ff := o.shared(c, nf, func() *Blob {
		f := &Blob{}
		k := o.count(c, 2)
		f.U16(0, k)
		for i := 0; i < k; i++ {
			f.U16(i % max(n, 1))
		}
		return f
	})
	for i := 0; i < nf; i++ {
		features.Data = append(features.Data, rawFeatures[(i+c.N(2))%len(rawFeatures)]...)
		features.Off(ff[i])
	}

	scripts := &Blob{}
	ns := o.count(c, 6)
	if ns == 0 && !c.P(1, 8) {
		ns = 1
	}
	scripts.U16(ns)
	sys := func() *Blob {
		s := &Blob{}
		k := o.count(c, 2)
		req := 0xFFFF
		if c.P(1, 3) {
			req = c.N(nf + 1)
		}
		s.U16(0, req, k)
		for i := 0; i < k; i++ {
			s.U16(i % max(nf, 1))
		}
		return s
	}
	ss := o.shared(c, ns, func() *Blob {
		s := &Blob{}
		k := o.count(c, 6)
		l := o.shared(c, k, sys)
		if c.P(4, 5) {
			s.Off(sys())
		} else {
			s.U16(0)
		}
		s.U16(k)
		for i := 0; i < k; i++ {
			s.Data = append(s.Data, rawLangs[i%len(rawLangs)]...)
			s.Off(l[i])
		}
		return s
	})
	for i := 0; i < ns; i++ {
		scripts.Data = append(scripts.Data, rawScripts[i%len(rawScripts)]...)
		scripts.Off(ss[i])
	}

	h := &Blob{}
	minor := 0
	if c.P(1, 6) {
		minor = 1
	}
	h.U16(1, minor).Off(scripts, features, lookups)
	if minor == 1 {
		h.U32(0)
	}
	return h.Bytes()
}

// RawGdef makes a GDEF table.
func (o *RawOpt) RawGdef(c *core.C) []byte {
	h := &Blob{}
	minor := []int{0, 2, 3, 1}[c.W(2, 5, 2, 1)]
	h.U16(1, minor)
	cl := func() *Blob {
		if c.P(1, 4) {
			return nil
		}
		return o.RawClass(c)
	}
	h.Off(cl(), nil, nil, cl())
	if minor >= 2 {
		if c.P(1, 8) {
			h.Off(nil)
		} else {
			sets := &Blob{}
			n := o.count(c, 4)
			sets.U16(1, n)
			for _, b := range o.shared(c, n, func() *Blob { return o.RawCov(c) }) {
				sets.Off32(b)
			}
			h.Off(sets)
		}
	}
	if minor >= 3 {
		h.U32(0)
	}
	return h.Bytes()
}

// RawCmapSub makes a cmap subtable of the given format.
func (o *RawOpt) RawCmapSub(c *core.C, format, n int) []byte {
	b := &Blob{}
	switch format {
	case 0:
		l := 262
		if c.P(1, 5) {
			l = c.R(6, 300)
		}
		b.U16(0, l, c.N(3))
		for len(b.Data) < l {
			b.U8(c.N(n) & 255)
			if len(b.Data) > 40 {
				b.Data = append(b.Data, make([]byte, l-len(b.Data))...)
			}
		}
	case 2:
		b.U16(2, 0, 0)
		nSub := c.N(4)
		for i := 0; i < 256; i++ {
			if i < 16 {
				b.U16(8 * c.N(nSub+1))
			} else {
				b.U16(0)
			}
		}
		for i := 0; i <= nSub; i++ {
			b.U16(c.N(256), c.N(20), c.N(5), c.N(40))
		}
		for i := 0; i < 20; i++ {
			b.U16(c.N(n))
		}
	case 4:
		segs := o.count(c, 8)
		arr := o.count(c, 2)
		type seg struct{ s, e, d, r int }
		var ss []seg
		p := c.N(40)
		for i := 0; i < segs && p < 0xFFFF; i++ {
			l := 1
			if i < 100 {
				l = c.R(1, 6)
			}
			if o.Heavy && i == segs-1 && c.P(1, 2) {
				l = 65000 - p
			}
			e := min(p+max(l, 1)-1, 0xFFFE)
			x := seg{p, e, c.N(65536), 0}
			if c.P(1, 2) {
				x.d = (c.N(n) - p) & 0xFFFF
			}
			if c.P(1, 2) && arr > 0 {
				x.r = 1
			}
			ss = append(ss, x)
			p = e + 1 + c.N(20)
		}
		if !c.P(1, 6) {
			ss = append(ss, seg{0xFFFF, 0xFFFF, 1, 0})
		}
		k := len(ss)
		b.U16(4, 0, c.N(3), 2*k, c.N(20), c.N(20), c.N(20))
		for _, s := range ss {
			b.U16(s.e)
		}
		b.U16(0)
		for _, s := range ss {
			b.U16(s.s)
		}
		for _, s := range ss {
			b.U16(s.d)
		}
		for i, s := range ss {
			if s.r == 0 {
				b.U16(0)
				continue
			}
			room := arr - (s.e - s.s + 1)
			off := 0
			if room > 0 {
				off = c.N(room + 1) // overlapping ranges of the glyph array
			}
			b.U16(2 * (k - i + off))
		}
		o.gids(c, b, arr)
	case 6:
		cnt := o.count(c, 2)
		first := c.N(70)
		if c.P(1, 6) {
			first = c.N(65536)
		}
		b.U16(6, 0, 0, first, cnt)
		o.gids(c, b, cnt)
		if c.P(1, 5) {
			b.U16(0)
		}
	case 8:
		g := o.count(c, 12)
		b.U16(8, 0).U32(0, 0)
		b.Data = append(b.Data, make([]byte, 8192)...)
		b.U32(g)
		for i := 0; i < g; i++ {
			b.U32(10*i, 10*i+c.N(9), i)
		}
	case 10:
		cnt := o.count(c, 2)
		b.U16(10, 0).U32(0, 0, c.N(70), cnt)
		o.gids(c, b, cnt)
	case 12, 13:
		g := o.count(c, 12)
		b.U16(format, 0).U32(0, 0, g)
		p := c.N(60)
		group := 0
		if o.Heavy && c.P(1, 3) {
			// many groups, each within (or just outside) the limits
			group = []int{65536, 65535, 65537, 32768, 21845, 1000}[c.N(6)]
			if c.P(1, 2) {
				g = min(o.Room/12, c.R(2, 300))
			}
			binary.BigEndian.PutUint32(b.Data[12:], uint32(g))
		}
		for i := 0; i < g; i++ {
			if group > 0 {
				b.U32(p, p+group-1, i%n)
				p += group
				continue
			}
			l := 1
			if i < 100 {
				l = c.R(1, 10)
			}
			if c.P(1, 12) && i < 100 {
				p = []int{0xFFF0, 0x10000, 0x10FFF0, 0x110000, 0x7FFFFFF0, 0xFFFFFFF0}[c.N(6)]
			}
			if o.Heavy && i == g-1 && c.P(2, 3) {
				l = []int{65536, 65000, 1 << 20, 1<<32 - p - 1, 1<<32 - p - 2}[c.N(5)]
			}
			b.U32(p, p+l-1, c.N(n+4))
			p += l
			if c.P(1, 3) {
				p += c.N(20)
			}
		}
	case 14:
		g := o.count(c, 11)
		b.U16(14).U32(0, g)
		for i := 0; i < g; i++ {
			b.U8(0, 0xFE, i).U32(c.N(60), c.N(60))
		}
	default:
		b.U16(format, 0, 0, c.N(9), c.N(9))
	}
	// length field
	l := len(b.Data)
	switch format {
	case 0, 2, 4, 6:
		if format != 0 || c.P(1, 2) {
			binary.BigEndian.PutUint16(b.Data[2:], uint16(l))
		}
	case 8, 10, 12, 13:
		binary.BigEndian.PutUint32(b.Data[4:], uint32(l))
	case 14:
		binary.BigEndian.PutUint32(b.Data[2:], uint32(l))
	}
	return b.Data
}

var cmapKeys = [][2]int{{3, 1}, {3, 10}, {0, 3}, {0, 4}, {1, 0}, {3, 0}, {0, 5}, {1, 1}, {2, 1}, {4, 0}, {0, 0}}

// RawCmap makes a cmap table with subtables of all formats.
func (o *RawOpt) RawCmap(c *core.C, n int) []byte {
	k := c.R(1, 5)
	if c.P(1, 12) {
		k = 0
	}
	if o.Heavy && c.P(1, 4) {
		k = c.R(1, 3000)
	}
	var subs [][]byte
	for i := 0; i < min(k, 4); i++ {
		f := []int{4, 12, 6, 0, 2, 8, 10, 13, 14, 1, 3}[c.W(6, 5, 3, 3, 1, 1, 1, 1, 1, 1, 1)]
		subs = append(subs, o.RawCmapSub(c, f, n))
	}
	b := (&Blob{}).U16(0, k)
	pos := 4 + 8*k
	var off []int
	for _, s := range subs {
		off = append(off, pos)
		pos += len(s)
	}
	for i := 0; i < k; i++ {
		kk := cmapKeys[c.N(len(cmapKeys))]
		if i >= 6 {
			kk = [2]int{i % 5, i}
		}
		b.U16(kk[0], kk[1]).U32(off[i%len(off)])
	}
	for _, s := range subs {
		b.Data = append(b.Data, s...)
	}
	return b.Data
}

// RawName makes a name table.
func (o *RawOpt) RawName(c *core.C) []byte {
	n := o.count(c, 12)
	version := 0
	if c.P(1, 4) {
		version = 1
	}
	b := &Blob{}
	nLang := 0
	extra := 0
	if version == 1 {
		nLang = c.N(3)
		extra = 2 + 4*nLang
	}
	b.U16(version, n, 6+12*n+extra)
	store := c.R(0, 60)
	if o.Heavy {
		store = c.R(0, 65535)
	}
	for i := 0; i < n; i++ {
		p, e, l := 3, 1, 0x409
		switch c.W(4, 3, 1, 1) {
		case 1:
			p, e, l = 1, 0, c.N(3)
		case 2:
			p, e, l = 0, 3, 0
		case 3:
			p, e, l = c.N(5), c.N(12), c.N(0x500)
		}
		off, ln := 0, store
		if !o.Heavy || c.P(1, 4) {
			off = c.N(store + 1)
			ln = c.N(store - off + 1)
			if c.P(1, 20) {
				ln = store - off + c.R(-1, 2)
			}
		}
		b.U16(p, e, l, c.N(26), ln, off)
		if i > 50 {
			// keep it cheap
			for j := i + 1; j < n; j++ {
				b.U16(3, 1, []int{0x409, 0x407, 0x40c, 0x809}[j%4], j%26, ln, off)
			}
			break
		}
	}
	if version == 1 {
		b.U16(nLang)
		for i := 0; i < nLang; i++ {
			b.U16(c.N(4), c.N(store+1))
		}
	}
	s := c.Bytes(store)
	for i := 0; i < len(s); i += 2 {
		s[i] &= 1
	}
	b.Data = append(b.Data, s...)
	return b.Data
}

// RawPost makes a post table.
func (o *RawOpt) RawPost(c *core.C, n int) []byte {
	b := &Blob{}
	v := []int{0x00020000, 0x00030000, 0x00010000, 0x00025000, 0x00040000}[c.W(6, 2, 2, 1, 1)]
	b.U32(v, c.N(1<<20)).U16(c.N(100), c.N(100)).U32(c.N(2), 0, 0, 0, 0)
	if v == 0x00020000 {
		k := n
		if c.P(1, 3) {
			k = o.count(c, 2)
		}
		b.U16(k)
		nn := c.N(6)
		for i := 0; i < k; i++ {
			switch {
			case i > 100:
				b.U16(258)
			case c.P(1, 2):
				b.U16(c.N(258))
			default:
				b.U16(258 + c.N(nn+1))
			}
		}
		for i := 0; i < nn; i++ {
			l := c.N(8)
			if c.P(1, 12) {
				l = 255
			}
			b.U8(l)
			b.Data = append(b.Data, c.Bytes(l)...)
		}
	} else if v == 0x00025000 {
		b.U16(n)
		for i := 0; i < n && i < 100; i++ {
			b.U8(c.N(256))
		}
	}
	return b.Data
}

// RawOS2 makes an OS/2 table of any version.
func (o *RawOpt) RawOS2(c *core.C) []byte {
	v := c.N(6)
	l := []int{78, 86, 96, 96, 96, 100}[v]
	if v == 0 && c.P(1, 3) {
		l = 68
	}
	b := c.Bytes(l)
	b[0], b[1] = 0, byte(v)
	return b
}

// RawKern makes a kern table.
func (o *RawOpt) RawKern(c *core.C, n int) []byte {
	b := (&Blob{}).U16(0)
	k := c.R(0, 4)
	if o.Heavy {
		k = o.count(c, 14)
	}
	b.U16(k)
	np := o.count(c, 6)
	for i := 0; i < k; i++ {
		cov := []int{1, 1, 3, 9, 11, 0x101, 5, 0}[c.N(8)]
		length := 14 + 6*np
		if o.Heavy && k > 4 {
			length = 14 // sub-tables overlap
			cov = 1
			b.U16(0, length, cov, np, 0, 0, 0)
			continue
		}
		b.U16(0, length, cov, np, 0, 0, 0)
		for j := 0; j < np; j++ {
			if j < 100 {
				b.U16(c.N(n), c.N(n), c.N(400)-200)
			} else {
				b.U16(j, j, 1)
			}
		}
	}
	if o.Heavy && k > 4 {
		for j := 0; j < np; j++ {
			b.U16(j, j*7, 1)
		}
	}
	return b.Data
}

// cffNum appends a charstring or DICT number (the encodings agree for these).
func cffNum(b []byte, v int) []byte {
	switch {
	case v >= -107 && v <= 107:
		return append(b, byte(v+139))
	case v >= 108 && v <= 1131:
		v -= 108
		return append(b, byte(v>>8)+247, byte(v))
	case v >= -1131 && v <= -108:
		v = -108 - v
		return append(b, byte(v>>8)+251, byte(v))
	default:
		return append(b, 28, byte(v>>8), byte(v))
	}
}

func cffIdx(items [][]byte) []byte {
	if len(items) == 0 {
		return []byte{0, 0}
	}
	total := 1
	for _, x := range items {
		total += len(x)
	}
	size := 1
	for total >= 1<<(8*size) {
		size++
	}
	b := []byte{byte(len(items) >> 8), byte(len(items)), byte(size)}
	put := func(v int) {
		for i := size - 1; i >= 0; i-- {
			b = append(b, byte(v>>(8*i)))
		}
	}
	p := 1
	put(p)
	for _, x := range items {
		p += len(x)
		put(p)
	}
	for _, x := range items {
		b = append(b, x...)
	}
	return b
}

func subrBias(n int) int {
	switch {
	case n < 1240:
		return 107
	case n < 33900:
		return 1131
	default:
		return 32768
	}
}

var t2ops = []int{21, 22, 4, 5, 6, 7, 8, 24, 25, 26, 27, 30, 31, 1, 3, 18, 23, 19, 20, 10, 29, 11, 14,
	12<<8 | 34, 12<<8 | 35, 12<<8 | 36, 12<<8 | 37, 12<<8 | 0, 12<<8 | 3, 12<<8 | 4, 12<<8 | 5, 12<<8 | 9, 12<<8 | 10,
	12<<8 | 11, 12<<8 | 12, 12<<8 | 14, 12<<8 | 15, 12<<8 | 18, 12<<8 | 20, 12<<8 | 21, 12<<8 | 22, 12<<8 | 23,
	12<<8 | 24, 12<<8 | 26, 12<<8 | 27, 12<<8 | 28, 12<<8 | 29, 12<<8 | 30, 0, 2, 9, 13, 12<<8 | 99}

// charString makes a random charstring; local and global are the numbers of
// subroutines.
func (o *RawOpt) charString(c *core.C, local, global int, sub bool) []byte {
	var b []byte
	if !sub && c.P(5, 6) {
		// usual start: hints and a moveto
		if c.P(1, 3) {
			for i, k := 0, 2*c.R(1, 4); i < k; i++ {
				b = cffNum(b, c.N(60))
			}
			b = append(b, []byte{1, 18}[c.N(2)])
		}
		b = cffNum(b, c.N(300))
		b = cffNum(b, c.N(300))
		b = append(b, 21)
	}
	for i, k := 0, c.Size(30); i < k; i++ {
		if c.P(1, 3) {
			// operators for the arithmetic
			for j, m := 0, c.N(14); j < m; j++ {
				switch c.W(5, 1, 1) {
				case 0:
					b = cffNum(b, c.N(200)-100)
				case 1:
					b = cffNum(b, c.N(65536)-32768)
				case 2:
					b = append(append(b, 255), c.Bytes(4)...)
				}
			}
			op := t2ops[c.N(len(t2ops))]
			if c.P(1, 4) {
				// operators which use a number as an index or a count
				op = []int{12<<8 | 20, 12<<8 | 21, 12<<8 | 29, 12<<8 | 30, 10, 29}[c.N(6)]
				idx := []int{0, 1, 2, 31, 32, 33, -1, c.N(60) - 5, 47, 48, 49}[c.N(11)]
				switch op {
				case 10:
					idx = []int{-1, local, local - 1, local + 1, -2 * subrBias(local)}[c.N(5)] - subrBias(local)
				case 29:
					idx = []int{-1, global, global - 1, global + 1, -2 * subrBias(global)}[c.N(5)] - subrBias(global)
				case 12<<8 | 20:
					b = cffNum(b, 1)
				case 12<<8 | 21:
					b = append(cffNum(cffNum(b, 1), c.N(32)), 12, 20)
				case 12<<8 | 30:
					b = cffNum(b, idx)
					idx = c.N(20) - 10
				}
				b = cffNum(b, idx)
			}
			if op > 255 {
				b = append(b, 12, byte(op))
			} else {
				b = append(b, byte(op))
			}
			if op == 19 || op == 20 {
				b = append(b, byte(c.N(256)))
			}
			continue
		}
		switch c.W(4, 2, 2) {
		case 0:
			n := 2 * c.R(1, 6)
			for j := 0; j < n; j++ {
				b = cffNum(b, c.N(200)-100)
			}
			b = append(b, []byte{5, 6, 7, 8, 24, 25, 26, 27, 30, 31}[c.N(10)])
		case 1:
			if local > 0 {
				b = cffNum(b, c.N(local)-subrBias(local))
				b = append(b, 10)
			}
		case 2:
			if global > 0 {
				b = cffNum(b, c.N(global)-subrBias(global))
				b = append(b, 29)
			}
		}
	}
	if sub {
		return append(b, 11)
	}
	return append(b, 14)
}

// tower makes k subroutines which call each other with fan-out f.
func tower(c *core.C, k, f int, op byte, n int) [][]byte {
	var res [][]byte
	for i := 0; i < n; i++ {
		var b []byte
		if i < k-1 {
			for j := 0; j < f; j++ {
				b = cffNum(b, i+1-subrBias(n))
				b = append(b, op)
			}
		} else {
			m := c.R(1, 40)
			for j := 0; j < m; j++ {
				b = cffNum(b, 1)
				b = append(b, 6)
			}
		}
		res = append(res, append(b, 11))
	}
	return res
}

// RawCFF makes a CFF font from scratch.
func (o *RawOpt) RawCFF(c *core.C) []byte {
	cid := c.P(1, 3)
	nGlyphs := 1 + c.Size(20)
	if o.Heavy && c.P(1, 3) {
		nGlyphs = o.count(c, 4) + 1
	}
	nGlyphs = min(nGlyphs, 65535)
	nGlobal, nLocal := c.N(4), c.N(4)
	var gsubrs, lsubrs [][]byte
	towers := false
	if o.Heavy {
		switch c.N(4) {
		case 0:
			towers = true
			nGlobal = c.R(1, 12)
			gsubrs = tower(c, min(nGlobal, c.R(1, 11)), c.R(1, 60), 29, nGlobal)
		case 1:
			towers = true
			nLocal = c.R(1, 12)
			lsubrs = tower(c, min(nLocal, c.R(1, 11)), c.R(1, 60), 10, nLocal)
		case 2:
			nLocal = o.count(c, 2)
			lsubrs = make([][]byte, nLocal)
		}
	}
	if gsubrs == nil {
		for i := 0; i < nGlobal; i++ {
			gsubrs = append(gsubrs, o.charString(c, nLocal, nGlobal, true))
		}
	}
	if lsubrs == nil {
		for i := 0; i < nLocal; i++ {
			lsubrs = append(lsubrs, o.charString(c, nLocal, nGlobal, true))
		}
	}
	pool := [][]byte{{14}}
	for i := 0; i < 4; i++ {
		var cs []byte
		if towers {
			cs = append(cs, 139, 139, 21)
			if len(lsubrs) > 0 && len(gsubrs) < len(lsubrs) {
				cs = append(cffNum(cs, -subrBias(nLocal)), 10)
			} else {
				cs = append(cffNum(cs, -subrBias(nGlobal)), 29)
			}
			cs = append(cs, 14)
		} else {
			cs = o.charString(c, nLocal, nGlobal, false)
		}
		pool = append(pool, cs)
	}
	glyphs := make([][]byte, nGlyphs)
	for i := range glyphs {
		if i < 40 {
			glyphs[i] = pool[c.N(len(pool))]
		} else {
			glyphs[i] = pool[i%len(pool)]
		}
	}

	nStr := c.N(5)
	strs := [][]byte{[]byte("Adobe"), []byte("Identity")}
	for i := 0; i < nStr; i++ {
		strs = append(strs, []byte("s"+string(rune('a'+i))))
	}
	if o.Heavy && c.P(1, 4) {
		k := o.count(c, 3)
		for i := 0; i < k; i++ {
			strs = append(strs, []byte{'x'})
		}
	}

	op32 := func(b []byte, v, op int) []byte {
		b = append(b, 29, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
		if op > 255 {
			b = append(b, 12)
		}
		return append(b, byte(op))
	}
	num := func(b []byte, op int, vals ...int) []byte {
		for _, v := range vals {
			b = cffNum(b, v)
		}
		if op > 255 {
			b = append(b, 12)
		}
		return append(b, byte(op))
	}

	nFD := 1
	if cid {
		nFD = c.R(1, 4)
		if o.Heavy && c.P(1, 2) {
			nFD = c.R(1, 300)
		}
	}

	var off struct{ charset, encoding, charStrings, fdSelect, fdArray, private, subrs int }
	var out []byte
	for pass := 0; pass < 2; pass++ {
		out = []byte{1, 0, 4, 4}
		out = append(out, cffIdx([][]byte{[]byte("Raw")})...)
		var top []byte
		if cid {
			top = num(top, 12<<8|30, 391, 392, 0)
		}
		if off.charset >= 0 {
			top = op32(top, off.charset, 15)
		}
		if !cid {
			top = op32(top, off.encoding, 16)
			top = append(top, 29, 0, 0, 0, 4)
			top = op32(top, off.private, 18)
		} else {
			top = op32(top, off.fdArray, 12<<8|36)
			top = op32(top, off.fdSelect, 12<<8|37)
		}
		top = op32(top, off.charStrings, 17)
		out = append(out, cffIdx([][]byte{top})...)
		out = append(out, cffIdx(strs)...)
		out = append(out, cffIdx(gsubrs)...)
		off.charset = len(out)
		if pass == 0 {
			// the choices below are made once
			o.prep(c, nGlyphs, nFD, cid, len(strs))
		}
		out = append(out, o.charset...)
		off.encoding = len(out)
		if o.std >= 0 {
			off.encoding = o.std
		} else {
			out = append(out, o.enc...)
		}
		off.private = len(out)
		out = append(out, 28, 0, 4, 19) // Subrs at offset 4
		off.subrs = len(out)
		out = append(out, cffIdx(lsubrs)...)
		off.charStrings = len(out)
		out = append(out, cffIdx(glyphs)...)
		if cid {
			off.fdSelect = len(out)
			out = append(out, o.fdsel...)
			off.fdArray = len(out)
			var fds [][]byte
			for i := 0; i < nFD; i++ {
				fd := []byte{29, 0, 0, 0, 4}
				fd = op32(fd, off.private, 18)
				fds = append(fds, fd)
			}
			out = append(out, cffIdx(fds)...)
		}
	}
	return out
}
