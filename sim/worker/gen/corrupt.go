package gen

import "verif/sim/worker/core"

var odd16 = []uint16{0, 1, 2, 3, 0xFFFF, 0xFFFE, 0x7FFF, 0x8000, 0x00FF, 0x0100, 0x4000, 0x3FFF}

// Corrupt returns a damaged copy of stored bytes: n independent faults out of
// flipped bits, overwritten bytes and 16/32-bit fields, lost, duplicated, moved
// and inserted blocks, and a lost tail.
func Corrupt(c *core.C, data []byte, n int) ([]byte, []string) {
	out := append([]byte(nil), data...)
	var kinds []string
	for i := 0; i < n; i++ {
		if len(out) == 0 {
			out = c.Bytes(c.R(1, 20))
			kinds = append(kinds, "replaced")
			continue
		}
		// positions near the start hit headers and offsets
		pos := func() int {
			switch c.W(2, 2, 1) {
			case 0:
				return c.N(len(out))
			case 1:
				return c.N(min(len(out), 64))
			default:
				return 2 * c.N((len(out)+1)/2)
			}
		}
		p := pos()
		put16 := func(p int, v uint16) {
			if p+1 < len(out) {
				out[p], out[p+1] = byte(v>>8), byte(v)
			}
		}
		get16 := func(p int) uint16 {
			if p+1 < len(out) {
				return uint16(out[p])<<8 | uint16(out[p+1])
			}
			return 0
		}
		switch c.W(3, 2, 4, 3, 3, 2, 2, 1, 1, 1, 2, 3) {
		case 0:
			out[p] ^= 1 << c.N(8)
			kinds = append(kinds, "bit flip")
		case 1:
			out[p] = byte(c.N(256))
			kinds = append(kinds, "byte")
		case 2:
			put16(p&^1, odd16[c.N(len(odd16))])
			kinds = append(kinds, "field: extreme value")
		case 3:
			put16(p&^1, get16(p&^1)+uint16(c.R(0, 4)-2))
			kinds = append(kinds, "field: off by a little")
		case 4:
			put16(p&^1, uint16(c.N(len(out)+8)))
			kinds = append(kinds, "field: other offset")
		case 5:
			put16(p&^1, get16(pos()&^1))
			kinds = append(kinds, "field: copied from elsewhere")
		case 6:
			put16(p&^1, uint16(c.N(64)))
			kinds = append(kinds, "field: small value")
		case 7:
			l := c.R(1, 12)
			e := min(p+l, len(out))
			out = append(out[:p], out[e:]...)
			kinds = append(kinds, "lost block")
		case 8:
			blk := c.Bytes(c.R(1, 8))
			out = append(out[:p:p], append(blk, out[p:]...)...)
			kinds = append(kinds, "inserted block")
		case 9:
			q, l := pos(), c.R(1, 40)
			blk := append([]byte(nil), out[q:min(q+l, len(out))]...)
			copy(out[p:], blk)
			kinds = append(kinds, "misplaced block")
		case 10:
			out = out[:p]
			kinds = append(kinds, "lost tail")
		case 11:
			out[p] += []byte{1, 255, 2, 254}[c.N(4)]
			kinds = append(kinds, "byte: off by a little")
		}
	}
	return out, kinds
}
