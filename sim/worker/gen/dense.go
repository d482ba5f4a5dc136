package gen

import (
	"math/bits"

	"verif/sim/worker/core"
)

// Dense lookup tables: pieces of the tables are shared by many offsets, so
// that small files describe lookups which need about "target" bytes when
// every piece is stored separately.

// denseCov covers the glyphs a, ..., a+n-1.
func denseCov(a, n int) *Blob {
	if n == 0 {
		return (&Blob{}).U16(1, 0)
	}
	return (&Blob{}).U16(2, 1, a, a+n-1, 0)
}

// denseClass gives class 1+i%k to the i-th glyph.
func denseClass(a, n, k int) *Blob {
	b := (&Blob{}).U16(1, a, n)
	for i := 0; i < n; i++ {
		b.U16(1 + i%k)
	}
	return b
}

func rep(b *Blob, n int) []*Blob {
	res := make([]*Blob, n)
	for i := range res {
		res[i] = b
	}
	return res
}

// sparseCov covers n glyphs; it needs 4+2n bytes.
func sparseCov(a, n int) *Blob {
	b := (&Blob{}).U16(1, n)
	for i := 0; i < n; i++ {
		b.U16(a + 2*i)
	}
	return b
}

// Dense makes a subtable of the given type.
func Dense(c *core.C, gpos bool, tp, target int) *Blob {
	b := &Blob{}
	g := c.R(1, 40)
	lim := func(n int) int { return max(1, min(n, 32000)) }
	seqs := func(n, x int) {
		for i := 0; i < n; i++ {
			b.U16(x + i)
		}
	}
	ctx := tp
	if gpos {
		ctx -= 2
	}
	if ctx == 5 || ctx == 6 {
		return denseContext(c, ctx == 6, target)
	}
	if !gpos {
		switch tp {
		case 1:
			n := min(target/2, 32700)
			if c.P(1, 6) {
				n = 32764 - c.N(3)
			}
			b.U16(2).Off(denseCov(g, n)).U16(n)
			seqs(n, 3)
		case 2, 3:
			m := []int{1, 2, 7, 50, 200}[c.N(5)]
			n := lim(target / (4 + 2*m))
			s := (&Blob{}).U16(m)
			for i := 0; i < m; i++ {
				s.U16(2 + i)
			}
			b.U16(1).Off(denseCov(g, n)).U16(n).Off(rep(s, n)...)
		case 4:
			k, m := c.R(1, 6), c.R(1, 30)
			n := lim(target / (4 + k*(4+2*m)))
			s := (&Blob{}).U16(k)
			for i := 0; i < k; i++ {
				l := (&Blob{}).U16(9+i, m)
				for j := 0; j < m-1; j++ {
					l.U16(3 + i + j)
				}
				s.Off(l)
			}
			b.U16(1).Off(denseCov(g, n)).U16(n).Off(rep(s, n)...)
		default: // 8
			m := c.R(1, 100)
			k := lim(target / (6 + 2*m))
			k1 := c.N(k + 1)
			n := c.R(1, 40)
			sc := sparseCov(5, m)
			b.U16(1).Off(denseCov(g, n))
			b.U16(k1).Off(rep(sc, k1)...)
			b.U16(k - k1).Off(rep(sc, k-k1)...)
			b.U16(n)
			seqs(n, 7)
		}
		return b
	}
	format := func() int { return []int{4, 1, 5, 8, 15, 0}[c.N(6)] }
	val := func(b *Blob, f, v int) {
		for k := bits.OnesCount(uint(f)); k > 0; k-- {
			b.U16(v)
		}
	}
	anchor := (&Blob{}).U16(1, c.R(1, 500), c.R(1, 500))
	switch tp {
	case 1:
		f := []int{4, 1, 5, 15}[c.N(4)]
		sz := 2 * bits.OnesCount(uint(f))
		n := min(target, 65534-8)/sz
		b.U16(2).Off(denseCov(g, n)).U16(f, n)
		for i := 0; i < n; i++ {
			val(b, f, i)
		}
	case 2:
		f1, f2 := format(), format()
		sz := 2 * bits.OnesCount(uint(f1)<<8|uint(f2))
		if c.P(1, 2) {
			m := c.R(1, 100)
			n := lim(target / (4 + m*(2+sz)))
			s := (&Blob{}).U16(m)
			for i := 0; i < m; i++ {
				s.U16(4 + 3*i)
				val(s, f1, i+1)
				val(s, f2, i-5)
			}
			b.U16(1).Off(denseCov(g, n)).U16(f1, f2, n).Off(rep(s, n)...)
			break
		}
		k1, k2 := c.R(1, 60), c.R(1, 60)
		for k1*k2*sz > 60000 {
			k1--
		}
		m := max(0, (target-k1*k2*sz)/6)
		n1 := min(max(k1-1, m), 12000)
		n2 := max(k2-1, c.N(200))
		cls := func(n, k int) *Blob {
			if k == 1 {
				return denseClass(5, 0, 1)
			}
			return denseClass(5, n, k-1)
		}
		b.U16(2).Off(denseCov(5, c.R(1, max(n1, 1)))).U16(f1, f2).Off(cls(n1, k1), cls(n2, k2)).U16(k1, k2)
		for i := 0; i < k1*k2; i++ {
			val(b, f1, i)
			val(b, f2, i+1)
		}
	case 3:
		n := lim(target / 16)
		b.U16(1).Off(denseCov(g, n)).U16(n).Off(rep(anchor, 2*n)...)
	case 4, 6:
		cc := c.R(1, 40)
		n1 := c.R(1, max(1, min(target/10, 7000)))
		if c.P(1, 2) {
			n1 = c.R(cc, cc+10)
		}
		n2 := max(1, min((target-10*n1)/(8*cc), 60000/(2*cc)))
		marks := (&Blob{}).U16(n1)
		for i := 0; i < n1; i++ {
			marks.U16(i % cc).Off(anchor)
		}
		base := (&Blob{}).U16(n2).Off(rep(anchor, n2*cc)...)
		b.U16(1).Off(denseCov(g, n1), denseCov(g+n1, n2)).U16(cc).Off(marks, base)
	default: // 5
		cc := c.R(1, 20)
		n1 := c.R(cc, cc+10)
		if c.P(1, 3) {
			n1 = c.R(1, max(1, min(target/10, 7000)))
		}
		marks := (&Blob{}).U16(n1)
		for i := 0; i < n1; i++ {
			marks.U16(i % cc).Off(anchor)
		}
		m := c.R(1, 5)
		n2 := lim((target - 10*n1) / (4 + m*cc*8))
		l := (&Blob{}).U16(m).Off(rep(anchor, m*cc)...)
		ligs := (&Blob{}).U16(n2).Off(rep(l, n2)...)
		b.U16(1).Off(denseCov(g, n1), denseCov(g+n1, n2)).U16(cc).Off(marks, ligs)
	}
	return b
}

func denseContext(c *core.C, chained bool, target int) *Blob {
	b := &Blob{}
	g := c.R(1, 40)
	format := c.R(1, 3)
	gids := func(b *Blob, n, x int) {
		for i := 0; i < n; i++ {
			b.U16(x + i%3)
		}
	}
	na := c.R(0, 3)
	actions := func(b *Blob) {
		for i := 0; i < na; i++ {
			b.U16(0, 0)
		}
	}
	if format == 3 {
		m := c.R(1, 200)
		k := max(1, min(target/(6+2*m), 32000))
		sc := sparseCov(2, m)
		b.U16(3)
		if chained {
			k1 := c.N(k)
			k3 := c.N(k - k1)
			b.U16(k1).Off(rep(sc, k1)...)
			b.U16(k - k1 - k3).Off(rep(sc, k-k1-k3)...)
			b.U16(k3).Off(rep(sc, k3)...)
			b.U16(na)
		} else {
			b.U16(k, na).Off(rep(sc, k)...)
		}
		actions(b)
		return b
	}
	// rules and rule sets
	sets := func(n int, x int, room int) []*Blob {
		k := c.R(1, 8)
		per := max(room/max(n, 1)-4, 8)/k - 2
		r := &Blob{}
		if chained {
			m := max(0, per-8-4*na) / 2
			m1 := c.N(m + 1)
			m2 := c.N(m - m1 + 1)
			r.U16(m1)
			gids(r, m1, x)
			r.U16(m2 + 1)
			gids(r, m2, x)
			r.U16(m - m1 - m2)
			gids(r, m-m1-m2, x)
			r.U16(na)
		} else {
			m := max(0, per-4-4*na) / 2
			r.U16(m+1, na)
			gids(r, m, x)
		}
		actions(r)
		s := (&Blob{}).U16(k).Off(rep(r, k)...)
		return rep(s, n)
	}
	if format == 1 {
		n := c.R(1, 300)
		b.U16(1).Off(denseCov(g, n)).U16(n).Off(sets(n, 3, target)...)
		return b
	}
	k := c.R(1, 100)
	n := c.R(k, k+50)
	b.U16(2).Off(denseCov(g, n))
	cl := func() *Blob { return denseClass(g, n, k) }
	b.Off(cl())
	if chained {
		b.Off(cl(), cl())
	}
	b.U16(k + 1).Off(sets(k+1, 0, target)...)
	return b
}

// DenseGtab makes a GSUB or GPOS table.
func DenseGtab(c *core.C, gpos bool) []byte {
	nTypes := []int{1, 2, 3, 4, 5, 6, 8}
	ext := 7
	if gpos {
		nTypes = []int{1, 2, 3, 4, 5, 6, 7, 8}
		ext = 9
	}
	target := func() int {
		switch c.W(3, 2, 2, 1) {
		case 0:
			return 65536 + c.R(-60, 60)
		case 1:
			return c.R(20000, 65000)
		case 2:
			return c.R(1, 20000)
		default:
			return c.R(65536, 150000)
		}
	}
	tp := nTypes[c.N(len(nTypes))]
	lookups := &Blob{}
	nl := 1
	if c.P(1, 2) {
		nl = c.R(1, 7)
	}
	many := 0
	if c.P(1, 6) {
		many = c.R(300, 3000) // in one lookup
	}
	lookups.U16(nl)
	var prev *Blob
	for i := 0; i < nl; i++ {
		l := &Blob{}
		t := tp
		if c.P(1, 3) {
			t = nTypes[c.N(len(nTypes))]
			prev = nil
		}
		ns := 1
		if c.P(1, 2) {
			ns = c.R(1, 6)
		}
		if i == nl-1 && many > 0 {
			ns = many
		}
		subs := make([]*Blob, ns)
		size := 0
		for j := range subs {
			if prev == nil || j < 6 && c.P(1, 6) {
				x := target()
				if many > 0 {
					x = c.R(1, 100)
				}
				prev = &Blob{Data: Dense(c, gpos, t, x).Bytes()}
				size += len(prev.Data)
			}
			subs[j] = prev
		}
		flags := []int{0, 0, 8, 0x10}[c.N(4)]
		if size > 30000 || c.P(1, 4) {
			l.U16(ext, flags, ns)
			for j, s := range subs {
				subs[j] = (&Blob{}).U16(1, t).Off32(s)
			}
		} else {
			l.U16(t, flags, ns)
		}
		l.Off(subs...)
		if flags&0x10 != 0 {
			l.U16(0)
		}
		if tp != t {
			prev = nil
		}
		lookups.Off(l)
	}

	// features and scripts
	nf, fl := 1, 1
	if c.P(1, 4) {
		nf = c.R(10, 4000)
		fl = max(1, min(30000/nf, c.R(1, 100)))
		if c.P(1, 2) {
			fl = max(1, (65536-2-6*nf)/nf/2-2+c.R(-1, 1))
		}
	}
	features := (&Blob{}).U16(nf)
	f := (&Blob{}).U16(0, fl)
	for i := 0; i < fl; i++ {
		f.U16(i % nl)
	}
	for i := 0; i < nf; i++ {
		features.Data = append(features.Data, rawFeatures[i%8]...)
		features.Off(f)
	}
	sys := func(m int) *Blob {
		s := (&Blob{}).U16(0, 0xFFFF, m)
		for i := 0; i < m; i++ {
			s.U16(i % nf)
		}
		return s
	}
	ns, k, m := 1, 0, 1
	if c.P(1, 4) {
		ns, k, m = c.R(1, 10), c.N(10), c.R(1, 700)
	}
	sc := (&Blob{})
	if ns == 1 {
		sc.Off(sys(m))
	} else {
		sc.Off(nil)
		sc.Data[0], sc.Data[1] = 0, 0
	}
	sc.U16(k)
	shared := sys(m)
	for i := 0; i < k; i++ {
		sc.Data = append(sc.Data, rawLangs[i%8]...)
		sc.Off(shared)
	}
	scripts := (&Blob{}).U16(ns)
	for i := 0; i < ns; i++ {
		scripts.Data = append(scripts.Data, rawScripts[i%10]...)
		scripts.Off(sc)
	}
	h := (&Blob{}).U16(1, 0).Off(scripts, features, lookups)
	return h.Bytes()
}
