// Package core is the heart of the simulator: seeded choices, the run loop,
// violations, and the line protocol spoken with the coordinator.
package core

import "math/bits"

// C is the source of every generated decision of a run: operations, inputs,
// fault kinds and fault positions.  In search mode the values come from one
// PRNG and are recorded; in replay mode they come from a list, and once the
// list is used up every further choice is 0 (the simplest alternative).
type C struct {
	state  uint64
	Rec    []uint64
	replay []uint64
	isRep  bool
	pos    int
}

func Mix(s uint64) uint64 {
	s += 0x9e3779b97f4a7c15
	z := s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewC(seed uint64) *C { return &C{state: Mix(seed ^ 0xd1b54a32d192ed03)} }

func ReplayC(list []uint64) *C { return &C{replay: list, isRep: true} }

func (c *C) raw() uint64 {
	c.state += 0x9e3779b97f4a7c15
	z := c.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// U returns a choice in [0,n).
func (c *C) U(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if c.isRep {
		if c.pos < len(c.replay) {
			v = c.replay[c.pos] % n
		}
		c.pos++
	} else {
		hi, _ := bits.Mul64(c.raw(), n)
		v = hi
	}
	c.Rec = append(c.Rec, v)
	return v
}

// N returns a choice in [0,n).
func (c *C) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(c.U(uint64(n)))
}

// R returns a choice in [lo,hi]; lo is the simplest value.
func (c *C) R(lo, hi int) int { return lo + c.N(hi-lo+1) }

// P is true with probability num/den; false is the simple choice.
func (c *C) P(num, den int) bool {
	if c.isRep {
		return c.U(2) == 1
	}
	hi, _ := bits.Mul64(c.raw(), uint64(den))
	v := uint64(0)
	if int(hi) < num {
		v = 1
	}
	c.Rec = append(c.Rec, v)
	return v == 1
}

// W picks an index with the given weights; index 0 is the simple choice.
func (c *C) W(weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	if c.isRep {
		return c.N(len(weights))
	}
	hi, _ := bits.Mul64(c.raw(), uint64(total))
	x := int(hi)
	k := 0
	for x >= weights[k] {
		x -= weights[k]
		k++
	}
	if len(weights) > 1 {
		c.Rec = append(c.Rec, uint64(k))
	}
	return k
}

// Size returns a value in [0,max] biased towards small values.
func (c *C) Size(max int) int {
	if max <= 0 {
		return 0
	}
	switch c.W(4, 3, 2, 1) {
	case 0:
		return c.N(min(max, 3) + 1)
	case 1:
		return c.N(min(max, 12) + 1)
	case 2:
		return c.N(min(max, 80) + 1)
	default:
		return c.N(max + 1)
	}
}

// Bytes returns n arbitrary bytes derived from a single recorded choice.
func (c *C) Bytes(n int) []byte {
	s := c.U(1 << 62)
	b := make([]byte, n)
	for i := range b {
		if i%8 == 0 {
			s = Mix(s + 1)
		}
		b[i] = byte(s >> (8 * (i % 8)))
	}
	return b
}

// Sub returns a PRNG (not recorded draw by draw) seeded by one recorded choice.
func (c *C) Sub() *C {
	s := c.U(1 << 62)
	return &C{state: Mix(s)}
}

// Perm returns a permutation of 0, ..., n-1.
func (c *C) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - c.N(i+1) // the zero choices give the identity
		p[i], p[j] = p[j], p[i]
	}
	return p
}
