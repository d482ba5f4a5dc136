// Package simio provides the simulated storage devices: readers and writers
// whose short transfers, errors and latencies are decided by the simulator.
package simio

import (
	"errors"
	"fmt"
	"io"
	"runtime"

	"verif/sim/worker/core"
)

// ErrDevice is the error injected by faulty devices.
var ErrDevice = errors.New("simulated device error")

// ErrFull is the injected "no space left" error.
var ErrFull = errors.New("simulated device full")

// Short-transfer modes.
const (
	Whole   = iota // always transfer as much as possible
	OneByte        // one byte at a time
	Random         // random short transfers
	Sector         // never cross a sector boundary
	NumModes
)

// Dev is a simulated random-access input device.
type Dev struct {
	R    *core.Run
	Data []byte
	Mode int
	Sec  int     // sector size for Sector mode
	Rng  *core.C // decisions at transfer time

	EOFWithData bool // return io.EOF together with the last bytes
	ZeroReads   int  // remaining number of (0, nil) results

	// FailFrom: any access touching offset >= FailFrom fails (-1: off).
	FailFrom int64
	// FailTo limits the failing range: [FailFrom, FailTo) (-1: no limit).
	FailTo int64
	// FailNth: the n-th access (counting from 1) fails once (0: off).
	FailNth int
	// Partial: failing accesses return the readable bytes before the fault.
	Partial bool
	// Err is the error returned by injected faults.
	Err error
	// Claim is the size reported by Size (0: the real size).
	Claim int64

	Fired    int // injected errors returned
	Accesses int
	Shorts   int
	MaxOff   int64 // largest offset successfully transferred + 1
	pos      int64
}

func NewDev(r *core.Run, data []byte, rng *core.C) *Dev {
	return &Dev{R: r, Data: data, Rng: rng, Sec: 512, FailFrom: -1, FailTo: -1, Err: ErrDevice}
}

func (d *Dev) Size() int64 {
	if d.Claim != 0 {
		return d.Claim
	}
	return int64(len(d.Data))
}

func (d *Dev) Seek(offset int64, whence int) (int64, error) {
	runtime.SimYield()
	d.R.SimNanos += 2_000_000
	switch whence {
	case io.SeekCurrent:
		offset += d.pos
	case io.SeekEnd:
		offset += int64(len(d.Data))
	}
	if offset < 0 {
		return 0, errors.New("simio: negative position")
	}
	d.pos = offset
	return offset, nil
}

// SetPos moves the device head without the code under test noticing.
func (d *Dev) SetPos(p int64) { d.pos = p }

func (d *Dev) limit(off int64, n int, allowShort bool) int {
	if !allowShort || n <= 1 {
		return n
	}
	m := n
	switch d.Mode {
	case OneByte:
		m = 1
	case Random:
		if d.Rng.P(3, 4) {
			m = d.Rng.R(1, n)
		}
	case Sector:
		m = d.Sec - int(off%int64(d.Sec))
	}
	if m > n {
		m = n
	}
	if m < n {
		d.Shorts++
	}
	return m
}

// transfer performs one access at off; allowShort selects Reader semantics.
func (d *Dev) transfer(p []byte, off int64, allowShort bool) (int, error) {
	runtime.SimYield()
	d.Accesses++
	d.R.SimNanos += 100_000 + int64(len(p))*10
	if len(p) == 0 {
		return 0, nil
	}
	if off < 0 {
		return 0, errors.New("simio: negative offset")
	}
	if d.FailNth != 0 && d.Accesses == d.FailNth {
		d.Fired++
		d.R.Ev(1, uint64(off))
		n := 0
		if d.Partial && off < int64(len(d.Data)) {
			n = copy(p[:(len(p)+1)/2], d.Data[off:])
		}
		return n, d.Err
	}
	avail := int64(len(d.Data)) - off
	if avail < 0 {
		avail = 0
	}
	n := len(p)
	eof := false
	if int64(n) > avail {
		n = int(avail)
		eof = true
	}
	if allowShort && d.ZeroReads > 0 && d.Rng != nil && n > 0 && d.Rng.P(1, 4) {
		d.ZeroReads--
		d.R.Ev(2, uint64(off))
		return 0, nil
	}
	if n > 0 {
		m := d.limit(off, n, allowShort)
		if m < n {
			n = m
			eof = false
		}
	}
	if d.FailFrom >= 0 && n > 0 {
		a, b := d.FailFrom, d.FailTo
		if b < 0 {
			b = int64(len(d.Data)) + 1
		}
		if off < b && off+int64(n) > a {
			d.Fired++
			d.R.Ev(3, uint64(off))
			k := 0
			if d.Partial && off < a {
				k = copy(p[:a-off], d.Data[off:])
			}
			return k, d.Err
		}
	}
	if d.FailFrom >= 0 && d.FailFrom <= off && n == 0 && d.FailTo < 0 {
		// everything from here on is unreadable, including the end of file
		d.Fired++
		return 0, d.Err
	}
	if n > 0 {
		copy(p, d.Data[off:off+int64(n)])
	}
	d.MaxOff = max(d.MaxOff, off+int64(n))
	d.R.Ev(4, uint64(off), uint64(n))
	if n == 0 {
		return 0, io.EOF
	}
	if eof || (off+int64(n) == int64(len(d.Data)) && d.EOFWithData) {
		if !allowShort || d.EOFWithData {
			return n, io.EOF
		}
		return n, nil
	}
	return n, nil
}

// Read implements io.Reader.
func (d *Dev) Read(p []byte) (int, error) {
	n, err := d.transfer(p, d.pos, true)
	d.pos += int64(n)
	return n, err
}

// ReadAt implements io.ReaderAt.
func (d *Dev) ReadAt(p []byte, off int64) (int, error) {
	n, err := d.transfer(p, off, false)
	if n < len(p) && err == nil {
		err = io.EOF
	}
	return n, err
}

// Stream hides everything except Read.
type Stream struct{ D *Dev }

func (s Stream) Read(p []byte) (int, error) { return s.D.Read(p) }

// ReadReadAt exposes Read and ReadAt only.
type ReadReadAt struct{ D *Dev }

func (s ReadReadAt) Read(p []byte) (int, error)              { return s.D.Read(p) }
func (s ReadReadAt) ReadAt(p []byte, off int64) (int, error) { return s.D.ReadAt(p, off) }

// Out is a simulated output device.
type Out struct {
	R *core.Run
	// Cap: the device accepts exactly Cap bytes and then fails (-1: off).
	Cap int64
	// FailNth: the n-th write call fails once (0: off); PartialBytes of it
	// are accepted.
	FailNth      int
	PartialBytes int
	// Reject: the write crossing Cap is refused as a whole.
	Reject bool
	Err    error

	Got      []byte
	Calls    int
	Fired    int
	AfterErr int // bytes accepted after the first injected error
}

func NewOut(r *core.Run) *Out { return &Out{R: r, Cap: -1, Err: ErrDevice} }

func (o *Out) Write(p []byte) (int, error) {
	runtime.SimYield()
	o.Calls++
	o.R.SimNanos += 200_000 + int64(len(p))*10
	if o.FailNth != 0 && o.Calls == o.FailNth {
		k := min(o.PartialBytes, len(p))
		o.Got = append(o.Got, p[:k]...)
		o.Fired++
		o.R.Ev(5, uint64(len(o.Got)))
		return k, o.Err
	}
	if o.Cap >= 0 && int64(len(o.Got)+len(p)) > o.Cap {
		k := int(o.Cap) - len(o.Got)
		if o.Reject || k < 0 {
			k = 0
		}
		o.Got = append(o.Got, p[:k]...)
		o.Fired++
		o.R.Ev(6, uint64(len(o.Got)))
		return k, o.Err
	}
	if o.Fired > 0 {
		o.AfterErr += len(p)
	}
	o.Got = append(o.Got, p...)
	return len(p), nil
}

func (o *Out) String() string {
	return fmt.Sprintf("cap=%d failNth=%d partial=%d reject=%v", o.Cap, o.FailNth, o.PartialBytes, o.Reject)
}
