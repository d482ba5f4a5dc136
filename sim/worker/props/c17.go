package props

import (
	"errors"
	"io"

	"seehuhn.de/go/sfnt/parser"

	"verif/sim/worker/core"
	"verif/sim/worker/simio"
)

func init() {
	register(&core.Prop{ID: "C17", Run: runC17, Budget: 40_000_000, HeapMax: 1 << 30})
}

// boundary draws a value near a multiple of the buffer size, a small value,
// or an arbitrary one, in [0,max].
func boundary(c *core.C, max int) int {
	v := 0
	switch c.W(3, 4, 2, 2) {
	case 0:
		v = c.N(8)
	case 1:
		v = 1024*c.N(6) + c.R(0, 6) - 3
	case 2:
		v = c.N(max + 1)
	case 3:
		v = max - c.N(8)
	}
	if v < 0 {
		v = 0
	}
	if v > max {
		v = max
	}
	return v
}

// runC17 drives one parser.Parser with a random history over a simulated
// device and compares every step with a byte-slice model.
func runC17(r *core.Run) {
	c := r.C
	size := boundary(c, 5000)
	data := c.Bytes(size)
	// make length prefixes for ReadUint16Slice plausible at some places
	for i, n := 0, c.N(6); i < n && size >= 4; i++ {
		p := boundary(c, size-2)
		k := c.Size(1200)
		data[p], data[p+1] = byte(k>>8), byte(k)
	}
	dev := simio.NewDev(r, data, c.Sub())
	dev.Mode = c.W(3, 2, 4, 2)
	dev.Sec = 1 << c.R(0, 10)
	dev.EOFWithData = c.P(1, 3)
	if c.P(1, 5) {
		dev.ZeroReads = 5
	}
	if c.P(1, 6) {
		dev.SetPos(int64(boundary(c, size+10)))
	}
	r.Logf("device: size=%d mode=%d sector=%d eofWithData=%v zeroReads=%d head=%v", size, dev.Mode, dev.Sec, dev.EOFWithData, dev.ZeroReads, 0)

	var p *parser.Parser
	if !r.Guard("New", func() { p = parser.New(dev) }) {
		return
	}
	pos := int64(0)
	maxOps := 40
	if r.Tier == "thorough" {
		maxOps = 200
	}
	nOps := 1 + c.Size(maxOps)
	fails := 0
	for i := 0; i < nOps && r.Viol == nil; i++ {
		op := c.W(4, 2, 2, 3, 2, 2, 2, 4, 4, 1, 1)
		avail := int64(size) - pos
		old := pos

		// check verifies a read of n bytes with the given outcome
		check := func(name string, n int64, got []byte, gotOK bool, err error) {
			wantOK := n <= avail
			if n == 0 && avail < 0 {
				wantOK = err == nil // zero-length read beyond EOF: either is fine
			}
			newPos := p.Pos()
			if err == nil && !wantOK {
				r.Violate("no-error/"+name, "op %d %s(%d) at %d of %d: succeeded past the end of input", i, name, n, old, size)
				return
			}
			if err != nil && wantOK {
				r.Violate("spurious-error/"+name, "op %d %s(%d) at %d of %d: unexpected error %v", i, name, n, old, size, err)
				return
			}
			if err != nil {
				fails++
				r.Count("reads past end of input")
				if !errors.Is(err, io.ErrUnexpectedEOF) {
					r.Violate("wrong-error/"+name, "op %d %s(%d) at %d of %d: error %v is not an unexpected-EOF error", i, name, n, old, size, err)
					return
				}
				hi := max(old, int64(size))
				if newPos < old || newPos > hi {
					r.Violate("pos-after-error/"+name, "op %d %s(%d) at %d of %d: position %d after failed read", i, name, n, old, size, newPos)
				}
				pos = newPos
				return
			}
			if !gotOK {
				r.Violate("wrong-value/"+name, "op %d %s(%d) at %d of %d: wrong data", i, name, n, old, size)
				return
			}
			pos = old + n
			if newPos != pos {
				r.Violate("wrong-pos/"+name, "op %d %s(%d) at %d of %d: position %d, want %d", i, name, n, old, size, newPos, pos)
			}
		}
		at := func(k int64) uint64 { return uint64(data[old+k]) }

		name := ""
		ok := r.Guard("op", func() {
			switch op {
			case 0: // SeekPos
				name = "SeekPos"
				var q int64
				switch c.W(3, 3, 1, 1) {
				case 0:
					q = int64(boundary(c, size))
				case 1:
					q = pos + int64(boundary(c, 2100)) - 1050
				case 2:
					q = int64(size) + int64(boundary(c, 3000))
				case 3:
					q = int64(size) + int64(c.U(1<<40))
				}
				if q < 0 {
					q = 0
				}
				err := p.SeekPos(q)
				r.Logf("SeekPos(%d) = %v", q, err)
				if err != nil {
					r.Violate("seek-error", "op %d SeekPos(%d): %v", i, q, err)
				}
				pos = q
				if p.Pos() != pos {
					r.Violate("wrong-pos/SeekPos", "op %d SeekPos(%d): Pos() = %d", i, q, p.Pos())
				}
			case 1: // Discard
				name = "Discard"
				n := boundary(c, 3000)
				err := p.Discard(n)
				r.Logf("Discard(%d) = %v", n, err)
				if err != nil {
					r.Violate("discard-error", "op %d Discard(%d) at %d: %v", i, n, old, err)
				}
				pos += int64(n)
				if p.Pos() != pos {
					r.Violate("wrong-pos/Discard", "op %d Discard(%d) at %d: Pos() = %d", i, n, old, p.Pos())
				}
			case 2:
				name = "ReadUint8"
				v, err := p.ReadUint8()
				r.Logf("ReadUint8 = %d %v", v, err)
				check(name, 1, nil, err != nil || avail < 1 || uint64(v) == at(0), err)
			case 3:
				name = "ReadUint16"
				v, err := p.ReadUint16()
				r.Logf("ReadUint16 = %d %v", v, err)
				check(name, 2, nil, err != nil || avail < 2 || uint64(v) == at(0)<<8|at(1), err)
			case 4:
				name = "ReadInt16"
				v, err := p.ReadInt16()
				r.Logf("ReadInt16 = %d %v", v, err)
				check(name, 2, nil, err != nil || avail < 2 || v == int16(at(0)<<8|at(1)), err)
			case 5:
				name = "ReadUint32"
				v, err := p.ReadUint32()
				r.Logf("ReadUint32 = %d %v", v, err)
				check(name, 4, nil, err != nil || avail < 4 || uint64(v) == at(0)<<24|at(1)<<16|at(2)<<8|at(3), err)
			case 6:
				name = "ReadUint16Slice"
				v, err := p.ReadUint16Slice()
				r.Logf("ReadUint16Slice = %d values %v", len(v), err)
				n := int64(2)
				if avail >= 2 {
					n += 2 * int64(at(0)<<8|at(1))
				}
				good := true
				if err == nil && n <= avail {
					good = int64(len(v)) == n/2-1
					for j := range v {
						if good && uint64(v[j]) != at(int64(2*j+2))<<8|at(int64(2*j+3)) {
							good = false
						}
					}
				}
				if err != nil && len(v) > 0 {
					r.Violate("partial-data/"+name, "op %d %s at %d: %d values returned together with %v", i, name, old, len(v), err)
				}
				check(name, n, nil, good, err)
			case 7:
				name = "ReadBytes"
				n := boundary(c, 1024)
				v, err := p.ReadBytes(n)
				r.Logf("ReadBytes(%d) = %d bytes %v", n, len(v), err)
				good := true
				if err == nil {
					good = len(v) == n
					if good && int64(n) <= avail {
						good = string(v) == string(data[old:old+int64(n)])
					}
				} else if len(v) > 0 {
					r.Violate("partial-data/"+name, "op %d %s(%d) at %d: %d bytes returned together with %v", i, name, n, old, len(v), err)
				}
				check(name, int64(n), nil, good, err)
			case 8:
				name = "Read"
				n := boundary(c, 4200)
				buf := make([]byte, n)
				k, err := p.Read(buf)
				r.Logf("Read(%d) = %d %v", n, k, err)
				good := k == n
				if err == nil && good && int64(n) <= avail {
					good = string(buf) == string(data[old:old+int64(n)])
				}
				if err != nil {
					if k < 0 || k >= n || int64(k) > max(avail, 0) {
						r.Violate("partial-data/Read", "op %d Read(%d) at %d of %d: count %d returned with %v", i, n, old, size, k, err)
					} else if string(buf[:k]) != string(data[min(old, int64(size)):min(old, int64(size))+int64(k)]) {
						r.Violate("wrong-value/Read-partial", "op %d Read(%d) at %d of %d: wrong bytes before the error", i, n, old, size)
					} else if p.Pos() != old+int64(k) {
						r.Violate("pos-after-error/Read", "op %d Read(%d) at %d of %d: returned %d bytes, position %d", i, n, old, size, k, p.Pos())
					}
				}
				check(name, int64(n), nil, good, err)
			case 9:
				name = "Pos"
				if q := p.Pos(); q != pos {
					r.Violate("wrong-pos/Pos", "op %d Pos() = %d, want %d", i, q, pos)
				}
			case 10:
				name = "Size"
				if q := p.Size(); q != int64(size) {
					r.Violate("wrong-size", "op %d Size() = %d, want %d", i, q, size)
				}
			}
		})
		_ = ok
	}
	r.Add("short reads", int64(dev.Shorts))
	r.Add("ops", int64(nOps))
	if dev.EOFWithData {
		r.Count("devices returning EOF together with data")
	}
	if dev.ZeroReads > 0 || dev.ZeroReads < 5 {
		r.Count("devices with empty reads")
	}
	r.NonTrivial = nOps >= 2 && dev.Accesses >= 2
}
