package gen

import (
	"encoding/binary"

	"verif/sim/worker/core"
)

// denseClassDef makes a class definition table which needs about size bytes.
func denseClassDef(c *core.C, size int) *Blob {
	first := []int{0, 0, 1, 5, 200}[c.N(5)]
	if c.P(1, 2) { // format 1
		n := max(1, min((size-6)/2, 65535-first))
		b := (&Blob{}).U16(1, first, n)
		k := c.R(1, 4)
		for i := 0; i < n; i++ {
			b.U16(1 + i%k)
		}
		return b
	}
	n := max(1, min((size-4)/6, 32000))
	step := c.R(1, 2)
	b := (&Blob{}).U16(2, n)
	for i := 0; i < n; i++ {
		b.U16(first+step*i, first+step*i, 1+i%3)
	}
	if c.P(1, 3) && first+step*n < 65535 { // the last glyph
		b.Data[2], b.Data[3] = byte((n+1)>>8), byte(n+1)
		b.U16(65535, 65535, 1)
	}
	return b
}

// alternating class definitions for all 65536 glyphs
func fullClassDef() *Blob {
	b := (&Blob{}).U16(2, 65535)
	for i := 0; i < 65534; i++ {
		b.U16(i, i, 1+i%2)
	}
	b.U16(65534, 65535, 3)
	return b
}

// DenseGdef makes a GDEF table with pieces beyond 64 KB.
func DenseGdef(c *core.C) []byte {
	size := func() int {
		return []int{50, 3000, 30000, 60000, 65400, 66000, 131000}[c.N(7)] + c.N(300)
	}
	cls := func() []byte {
		switch c.W(2, 8, 1) {
		case 0:
			return nil
		case 1:
			return denseClassDef(c, size()).Bytes()
		default:
			return fullClassDef().Bytes()
		}
	}
	a, m := cls(), cls()
	if c.P(1, 2) {
		m = a
	}
	var sets []byte
	var covs []byte
	if c.P(2, 3) {
		n := []int{0, 1, 3, 100, 3000, 16000, 16300, 16400, 30000}[c.N(9)]
		cov := sparseCov(c.N(10), c.N(5)).Bytes()
		sets = binary.BigEndian.AppendUint32(sets, 1<<16|uint32(n))
		for i := 0; i < n; i++ {
			sets = binary.BigEndian.AppendUint32(sets, uint32(4+4*n))
		}
		covs = cov
	}
	// pieces in any order, if the offsets fit
	pieces := [][]byte{a, m, append(sets, covs...)}
	same := len(a) > 0 && len(m) == len(a)
	best := []int(nil)
	for try := 0; try < 8; try++ {
		perm := c.Perm(3)
		pos, ok := 14, true
		for _, i := range perm {
			if pos > 65535 && len(pieces[i]) > 0 {
				ok = false
			}
			if !(i == 1 && same) {
				pos += len(pieces[i])
			}
		}
		if ok {
			best = perm
			break
		}
	}
	if best == nil {
		best = []int{0, 1, 2}
	}
	off := [3]int{}
	res := make([]byte, 14)
	for _, i := range best {
		if len(pieces[i]) == 0 || i == 1 && same {
			continue
		}
		off[i] = len(res)
		res = append(res, pieces[i]...)
	}
	if same {
		off[1] = off[0]
	}
	copy(res, []byte{0, 1, 0, 2, byte(off[0] >> 8), byte(off[0]), 0, 0, 0, 0, byte(off[1] >> 8), byte(off[1]), byte(off[2] >> 8), byte(off[2])})
	return res
}

// DenseName makes a name table with long strings, which can share storage.
func DenseName(c *core.C) []byte {
	ids := []int{0, 1, 2, 4, 6, 7, 10, 13, 14, 19}
	type rec struct{ plat, enc, lang, id, n int }
	var recs []rec
	plat := c.N(3)
	for _, id := range ids {
		if !c.P(1, 2) {
			continue
		}
		n := []int{10, 1000, 5000, 10800, 16383, 21845, 32767, 40000, 65535}[c.N(9)]
		if c.P(1, 2) {
			n = c.N(200)
		}
		switch plat {
		case 0:
			recs = append(recs, rec{1, 0, 0, id, n})
		case 1:
			recs = append(recs, rec{3, 1, 0x409, id, min(2*n, 65534)})
		default:
			recs = append(recs, rec{3, 1, 0x409, id, min(2*n, 65534)}, rec{1, 0, 0, id, n})
		}
	}
	share := c.P(1, 2)
	hdr := []byte{0, 0, byte(len(recs) >> 8), byte(len(recs)), 0, byte(6 + 12*len(recs))}
	var store []byte
	fill := func(n int, b byte) {
		for len(store) < n {
			store = append(store, 0, 'a'+b%26)
			if len(store)%64 == 0 && b%2 == 0 {
				b++
			}
		}
	}
	for i, r := range recs {
		off := 0
		if share || len(store)+r.n > 65535+r.n {
			fill(r.n, 3)
		} else {
			off = len(store)
			fill(off+r.n, byte(i))
		}
		if r.plat == 1 && off+1+r.n <= len(store) {
			off++ // starts with a letter
		}
		for _, x := range []int{r.plat, r.enc, r.lang, r.id, r.n, off} {
			hdr = append(hdr, byte(x>>8), byte(x))
		}
	}
	return append(hdr, store...)
}

// ManyGlyphs extends a TrueType font to n glyphs, and gives these glyphs
// names.
func ManyGlyphs(c *core.C, recs []TableRec, n int) []TableRec {
	get := func(tag string) *TableRec {
		for i := range recs {
			if recs[i].Tag == tag {
				return &recs[i]
			}
		}
		return nil
	}
	maxp, loca, head, hhea, hmtx, post := get("maxp"), get("loca"), get("head"), get("hhea"), get("hmtx"), get("post")
	for _, t := range []*TableRec{maxp, loca, head, hhea, hmtx, post} {
		if t == nil {
			return recs
		}
	}
	if len(maxp.Data) < 6 || len(head.Data) < 54 || len(hhea.Data) < 36 || len(post.Data) < 32 {
		return recs
	}
	old := int(binary.BigEndian.Uint16(maxp.Data[4:]))
	binary.BigEndian.PutUint16(maxp.Data[4:], uint16(n))
	w := 2
	if head.Data[51] != 0 {
		w = 4
	}
	for k := old; k < n; k++ {
		loca.Data = append(loca.Data, loca.Data[len(loca.Data)-w:]...)
	}
	if c.P(1, 2) {
		hmtx.Data = append(hmtx.Data, make([]byte, 2*(n-old))...)
	} else {
		// all widths given
		nw := int(binary.BigEndian.Uint16(hhea.Data[34:]))
		hmtx.Data = hmtx.Data[:min(len(hmtx.Data), 4*nw)]
		for k := nw; k < n; k++ {
			hmtx.Data = append(hmtx.Data, byte(k>>10), byte(k), 0, byte(k>>3))
		}
		binary.BigEndian.PutUint16(hhea.Data[34:], uint16(n))
	}
	// names
	p := append([]byte{0, 2, 0, 0}, post.Data[4:32]...)
	p = binary.BigEndian.AppendUint16(p, uint16(n))
	distinct := []int{1, 2, 100, 32000, 65278}[c.N(5)]
	mac := []int{0, 1, 258}[c.N(3)]
	var strs []byte
	used := 0
	for k := 0; k < n; k++ {
		if k < mac || distinct == 0 {
			p = binary.BigEndian.AppendUint16(p, uint16(k))
			continue
		}
		j := (k - mac) % distinct
		p = binary.BigEndian.AppendUint16(p, uint16(258+j))
		used = max(used, j+1)
	}
	for j := 0; j < used; j++ {
		strs = append(strs, 4, byte('a'+j%26), byte('a'+j/26%26), byte('a'+j/676%26), byte('a'+j/17576%26))
	}
	post.Data = append(p, strs...)
	return recs
}

// DenseKern makes a kern table with many pairs.
func DenseKern(c *core.C) []byte {
	nf := []int{1, 2, 30, 1000, 10000}[c.N(5)]
	per := []int{1, 5, 100, 3000, 10000, 16000}[c.N(6)] + c.N(50)
	for nf*per > 24000 {
		if nf > 2 && (c.P(1, 2) || per < 10) {
			nf /= 2
		} else {
			per /= 2
		}
	}
	nf, per = max(nf, 1), max(per, 1)
	a := c.N(100)
	var sub [][]byte
	var cur []byte
	flush := func() {
		n := len(cur) / 6
		if n == 0 {
			return
		}
		h := []byte{0, 0, byte((14 + 6*n) >> 8), byte(14 + 6*n), 0, 1, byte(n >> 8), byte(n), 0, 0, 0, 0, 0, 0}
		sub = append(sub, append(h, cur...))
		cur = nil
	}
	for i := 0; i < nf; i++ {
		for j := 0; j < per; j++ {
			l, r, v := a+i, j, 1+(i+j)%50
			cur = append(cur, byte(l>>8), byte(l), byte(r>>8), byte(r), byte(v>>8), byte(v))
			if len(cur) >= 6*10900 {
				flush()
			}
		}
	}
	flush()
	res := []byte{0, 0, byte(len(sub) >> 8), byte(len(sub))}
	for _, s := range sub {
		res = append(res, s...)
	}
	return res
}
