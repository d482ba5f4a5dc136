package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"syscall"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/header"

	"verif/sim/worker/core"
	"verif/sim/worker/gen"
	"verif/sim/worker/simio"
	"verif/sim/worker/snap"
)

func init() {
	register(&core.Prop{ID: "C18", Run: runC18, Budget: 400_000_000, HeapMax: 2 << 30})
}

// devErrors are the errors injected by faulty devices.  None of them is
// io.EOF, except for the write side, where io.EOF is an error like any other.
var devErrors = []error{
	simio.ErrDevice,
	syscall.EIO,
	io.ErrUnexpectedEOF,
	simio.ErrFull,
	io.ErrClosedPipe,
	fmt.Errorf("read /dev/sim: %w", syscall.ETIMEDOUT),
	io.ErrShortWrite,
	io.ErrNoProgress,
}

func c18Font(r *core.Run, kind int) *sfnt.Font {
	c := r.C
	o := &gen.FOpt{Kind: kind, MinGlyphs: 1, MaxGlyphs: 12, Layout: c.P(1, 2), NoCmap: c.P(1, 8)}
	if c.P(1, 12) {
		// large tables, longer than the buffers of the decoders
		o.Big = true
		o.MinGlyphs, o.MaxGlyphs = 60, 250
		o.MaxLookup = 30
		r.Count("fonts with large tables")
	}
	return gen.Font(c, o)
}

func runC18(r *core.Run) {
	switch r.C.W(5, 5, 2, 2) {
	case 0:
		c18Write(r)
	case 1:
		c18Read(r)
	case 2:
		c18ReadCFF(r)
	case 3:
		c18Tables(r)
	}
}

// writeOp is one of the output functions.  cnt is -1 for functions which do
// not report a byte count.
type writeOp struct {
	name string
	f    func(w io.Writer) (cnt int64, err error)
}

// budget bounds the next faulty operation, relative to the steps used without
// faults.
func budget(cost uint64) { runtime.SimSetBudget(runtime.SimSteps()+20*cost+5_000_000, 2<<30) }

// stepLimit ends a run early.
const stepLimit = 120_000_000

// faultPoints draws the list of fault positions in [0,n].
func faultPoints(r *core.Run, n int, marks []int, most int, cost uint64) []int {
	c := r.C
	if uint64(n)*cost < 60_000_000 && c.P(1, 12) {
		r.Count("complete sweeps over all fault positions")
		all := make([]int, n+1)
		for i := range all {
			all[i] = i
		}
		return all
	}
	k := 1 + c.N(most)
	res := make([]int, k)
	for i := range res {
		p := 0
		switch c.W(3, 3, 2, 1) {
		case 0:
			p = c.N(n + 1)
		case 1:
			if len(marks) > 0 {
				p = marks[c.N(len(marks))] + c.R(0, 6) - 3
			}
		case 2:
			p = n - c.N(8)
		case 3:
			p = c.N(32)
		}
		res[i] = max(0, min(p, n))
	}
	return res
}

// checkWrites runs op against a perfect device and then against many faulty
// ones.
func checkWrites(r *core.Run, op *writeOp) {
	c := r.C
	ref := simio.NewOut(r)
	var cnt int64
	var err error
	start := runtime.SimSteps()
	if !r.Guard(op.name+"/no fault", func() { cnt, err = op.f(ref) }) {
		return
	}
	cost := runtime.SimSteps() - start
	if err != nil {
		// this font cannot be written in this form; not a matter of I/O
		r.Count("fonts not writable in this form")
		return
	}
	r.Logf("%s: %d bytes in %d calls", op.name, len(ref.Got), ref.Calls)
	if cnt >= 0 && cnt != int64(len(ref.Got)) {
		r.Violate("count-on-success/"+op.name, "%s: returned count %d, but %d bytes were written", op.name, cnt, len(ref.Got))
		return
	}
	n := len(ref.Got)
	var marks []int
	if n >= 12 && op.name != "cff.Write" {
		if _, recs := gen.ParseSfntLoose(ref.Got); recs != nil {
			for _, t := range recs {
				marks = append(marks, int(t.Off), int(t.Off)+int(t.Len))
			}
		}
	}
	for _, k := range faultPoints(r, n, marks, 30, cost) {
		budget(cost)
		if runtime.SimSteps() > stepLimit {
			break
		}
		out := simio.NewOut(r)
		out.Err = devErrors[c.N(len(devErrors))]
		if c.P(1, 16) {
			out.Err = io.EOF
		}
		kind := c.W(4, 2, 2, 1)
		what := ""
		switch kind {
		case 0: // accepts exactly k bytes, the crossing write is short
			out.Cap = int64(k)
			what = "device full after k bytes (short last write)"
		case 1: // the crossing write is rejected as a whole
			out.Cap = int64(k)
			out.Reject = true
			what = "device full after k bytes (last write rejected)"
		case 2: // transient failure of one write call
			out.FailNth = 1 + c.N(ref.Calls)
			what = "one write call fails"
		case 3: // transient short write
			out.FailNth = 1 + c.N(ref.Calls)
			out.PartialBytes = 1 + c.Size(300)
			what = "one write call is short"
		}
		if !r.Guard(op.name+"/write fault", func() { cnt, err = op.f(out) }) {
			return
		}
		r.Ev(uint64(kind), uint64(k), uint64(cnt))
		trace(r, "%s to a device with %s: count %d, error %v; accepted %d bytes in %d calls, %d faults", op.name, out, cnt, err, len(out.Got), out.Calls, out.Fired)
		if out.Fired == 0 {
			r.Count("write faults behind the end of the file")
			if err != nil {
				r.Violate("spurious-write-error/"+op.name, "%s: error %v from a device which accepted everything (%s)", op.name, err, out)
				return
			}
		} else {
			r.Count("fault: " + what)
			if err == nil {
				r.Violate("write-error-lost/"+op.name, "%s: no error, but the device failed (%s, error %v, %d bytes accepted of %d)", op.name, out, out.Err, len(out.Got), n)
				return
			}
		}
		if cnt >= 0 && cnt != int64(len(out.Got)) {
			r.Violate("count-after-fault/"+op.name, "%s: returned count %d, but the device accepted %d bytes (%s)", op.name, cnt, len(out.Got), out)
			return
		}
	}
	r.NonTrivial = true
}

func c18Write(r *core.Run) {
	c := r.C
	font := c18Font(r, -1)
	op := &writeOp{}
	switch font.Outlines.(type) {
	case *glyf.Outlines:
		if c.P(1, 3) {
			var extra []any
			for i, k := 0, c.N(3); i < k; i++ {
				name := []string{"cvt ", "XtRa", "name", "cmap", "zzzz"}[c.N(5)]
				extra = append(extra, name, c.Bytes(c.Size(300)))
			}
			op.name = "WriteTrueTypePDF"
			op.f = func(w io.Writer) (int64, error) { return font.WriteTrueTypePDF(w, extra...) }
		}
	case *cff.Outlines:
		switch c.W(2, 1, 1) {
		case 1:
			op.name = "WriteOpenTypeCFFPDF"
			op.f = func(w io.Writer) (int64, error) { return -1, font.WriteOpenTypeCFFPDF(w) }
		case 2:
			op.name = "cff.Write"
			op.f = func(w io.Writer) (int64, error) { return -1, font.AsCFF().Write(w) }
		}
	}
	if op.f == nil {
		op.name = "Font.Write"
		op.f = func(w io.Writer) (int64, error) { return font.Write(w) }
	}
	checkWrites(r, op)
}

func c18Tables(r *core.Run) {
	c := r.C
	names := []string{"head", "cmap", "glyf", "loca", "maxp", "aaaa", "zzzz", "OS/2", "CFF ", "DSIG", "name", "post", "kern"}
	tables := map[string][]byte{}
	for i, k := 0, 1+c.N(8); i < k; i++ {
		name := names[c.N(len(names))]
		n := c.Size(500)
		if c.P(1, 20) {
			n = 4096*c.N(4) + c.N(5)
		}
		if name == "head" {
			n += 12
		}
		d := c.Bytes(n)
		if d == nil {
			d = []byte{}
		}
		tables[name] = d
	}
	scaler := []uint32{header.ScalerTypeTrueType, header.ScalerTypeCFF, header.ScalerTypeApple}[c.N(3)]
	checkWrites(r, &writeOp{"header.Write", func(w io.Writer) (int64, error) { return header.Write(w, scaler, tables) }})
}

// outcome is the observable result of a decoder.
type outcome struct {
	err  error
	hash uint64
}

func (o outcome) same(p outcome) bool {
	if (o.err != nil) != (p.err != nil) {
		return false
	}
	return o.err != nil || o.hash == p.hash
}

// trace describes a step in the log of a replayed run.
func trace(r *core.Run, format string, args ...any) {
	if r.Verbose && len(r.Log) < 4000 {
		r.Log = append(r.Log, fmt.Sprintf(format, args...))
	}
}

func readSfnt(rd io.Reader) outcome {
	f, err := sfnt.Read(rd)
	if err != nil {
		return outcome{err: err}
	}
	if f == nil {
		return outcome{hash: 1}
	}
	return outcome{hash: snap.Hash(f)}
}

func readCFF(rd *simio.Dev) outcome {
	f, err := cff.Read(rd)
	if err != nil {
		return outcome{err: err}
	}
	return outcome{hash: snap.Hash(f)}
}

// c18File generates a font file which differs in layout from what the library
// itself writes.
func c18File(r *core.Run) []byte {
	c := r.C
	font := c18Font(r, -1)
	buf := &bytes.Buffer{}
	ok := r.Guard("Font.Write", func() {
		if _, err := font.Write(buf); err != nil {
			buf.Reset()
		}
	})
	if !ok || buf.Len() == 0 {
		return nil
	}
	if c.P(1, 3) {
		return buf.Bytes()
	}
	scaler, recs := gen.ParseSfnt(buf.Bytes())
	keep := recs[:0]
	for _, t := range recs {
		opt := t.Tag != "glyf" && t.Tag != "loca" && t.Tag != "CFF " && t.Tag != "head" && t.Tag != "maxp" && t.Tag != "hhea" && t.Tag != "hmtx"
		if opt && c.P(1, 6) {
			continue
		}
		keep = append(keep, t)
	}
	recs = keep
	if c.P(1, 4) {
		var k2 []gen.TableRec
		for _, t := range recs {
			if t.Tag != "GPOS" {
				k2 = append(k2, t)
			}
		}
		recs = append(k2, gen.TableRec{Tag: "kern", Data: gen.Kern(c, font.NumGlyphs(), 1+c.N(2))})
	}
	if c.P(1, 3) {
		recs = append(recs, gen.TableRec{Tag: "zzzz", Data: c.Bytes(c.Size(100))})
	}
	if c.P(1, 4) {
		recs = append(recs, gen.TableRec{Tag: "DSIG", Data: c.Bytes(c.N(20))})
	}
	fo := &gen.FileOpt{NoPad: c.P(1, 2)}
	for i := range recs {
		fo.Order = append(fo.Order, i)
	}
	for i := len(recs) - 1; i > 0; i-- {
		j := i - c.N(i+1)
		fo.Order[i], fo.Order[j] = fo.Order[j], fo.Order[i]
	}
	if c.P(1, 3) {
		fo.Gap = func() int { return 4 * c.N(4) }
	}
	if scaler == header.ScalerTypeTrueType && c.P(1, 10) {
		scaler = header.ScalerTypeApple
	}
	return gen.BuildSfnt(scaler, recs, fo)
}

// ifaces are the ways in which the file is offered to the reader.
var ifaces = []string{"ReaderAt", "stream", "Reader+ReaderAt"}

func c18Read(r *core.Run) {
	data := c18File(r)
	if data == nil || r.Viol != nil {
		return
	}
	end := gen.DataEnd(data)
	var marks []int
	_, recs := gen.ParseSfnt(data)
	for _, t := range recs {
		marks = append(marks, int(t.Off), int(t.Off+t.Len))
	}
	read := func(d *simio.Dev, iface int) outcome {
		switch iface {
		case 1:
			return readSfnt(simio.Stream{D: d})
		case 2:
			return readSfnt(simio.ReadReadAt{D: d})
		}
		return readSfnt(d)
	}
	faultyReads(r, "sfnt.Read", data, end, marks, 3, read)
}

func c18ReadCFF(r *core.Run) {
	c := r.C
	font := c18Font(r, gen.CFF+c.N(2))
	buf := &bytes.Buffer{}
	ok := r.Guard("cff.Write", func() {
		if err := font.AsCFF().Write(buf); err != nil {
			buf.Reset()
		}
	})
	if !ok || buf.Len() == 0 {
		return
	}
	// every byte of a file written by the library may or may not be needed:
	// decided by flipping bytes
	faultyReads(r, "cff.Read", buf.Bytes(), -1, nil, 1, func(d *simio.Dev, _ int) outcome { return readCFF(d) })
}

// faultyReads reads data through many faulty devices.  Every byte below end
// must be needed; end<0 means that needed bytes are found by flipping them.
func faultyReads(r *core.Run, name string, data []byte, end int, marks []int, nIface int, read func(*simio.Dev, int) outcome) {
	c := r.C
	var base outcome
	accesses := 0
	var cost uint64
	clean := func(d []byte) (o outcome, ok bool) {
		dev := simio.NewDev(r, d, nil)
		start := runtime.SimSteps()
		defer func() { cost = runtime.SimSteps() - start }()
		ok = r.Guard(name+"/no fault", func() { o = read(dev, 0) })
		accesses = dev.Accesses + 1
		return
	}
	base, ok := clean(data)
	if !ok {
		return
	}
	if base.err != nil {
		r.Count("generated files rejected by the fault-free reader")
		r.Logf("fault-free: %v", base.err)
		return
	}
	again, ok := clean(data)
	if !ok {
		return
	}
	if !again.same(base) {
		r.Count("files with non-reproducible decoding")
		return
	}
	r.Logf("%s: file of %d bytes, tables end at %d", name, len(data), end)
	r.NonTrivial = true

	// needed reports whether some byte in [a,b) influences the outcome.
	needed := func(a, b int) bool {
		tries := 10
		mod := append([]byte(nil), data...)
		for i := 0; i < tries && a < b; i++ {
			p := a + i
			if b-a > tries {
				p = a + (b-a)*i/tries
			} else if p >= b {
				break
			}
			old := mod[p]
			for _, x := range []byte{0xff, 0x01} {
				mod[p] = old ^ x
				var o outcome
				budget(cost)
				v, _ := core.Catch(func() { o = read(simio.NewDev(r, mod, nil), 0) })
				runtime.SimClearOver()
				if v != nil || !o.same(base) {
					// a panic on the modified file shows as well that the byte was used
					mod[p] = old
					return true
				}
			}
			mod[p] = old
		}
		return false
	}

	for _, k := range faultPoints(r, len(data), marks, 24, cost) {
		if runtime.SimSteps() > stepLimit {
			break
		}
		iface := c.N(nIface)
		rng := c.Sub()
		d := simio.NewDev(r, data, rng)
		d.Mode = c.W(3, 1, 2, 1)
		d.Sec = 1 << c.R(0, 9)
		d.EOFWithData = c.P(1, 4)
		d.Err = devErrors[c.N(len(devErrors))]
		kind := c.W(3, 3, 4, 3)
		must, what := false, ""
		switch kind {
		case 0: // truncation
			d.Data = data[:k]
			what = "file truncated"
			if end >= 0 {
				must = k < end
			} else {
				must = k < len(data) && needed(k, len(data))
			}
			if end < 0 && c.P(1, 4) {
				// the file shrinks after its size was determined
				d.Claim = int64(len(data))
				what = "file shorter than its reported size"
			}
		case 1: // device unreadable from k on
			d.FailFrom = int64(k)
			d.Partial = c.P(1, 2)
			what = "device unreadable from offset k"
			if end >= 0 {
				must = k < end
			} else {
				must = k < len(data) && needed(k, len(data))
			}
		case 2: // bad range
			w := 1 + c.Size(600)
			d.FailFrom, d.FailTo = int64(k), int64(min(k+w, len(data)+1))
			d.Partial = c.P(1, 2)
			what = "unreadable range"
			if iface == 1 {
				must = k < len(data) && k < end
			}
			if !must {
				must = k < len(data) && needed(k, min(k+w, len(data)))
			}
		case 3: // one access fails
			d.FailNth = 1 + c.N(accesses)
			d.Partial = c.P(1, 2)
			what = "one access fails"
		}
		budget(cost)
		var o outcome
		if !r.Guard(name+"/read fault", func() { o = read(d, iface) }) {
			r.Viol.Msg += fmt.Sprintf(" [%s at %d of %d via %s]", what, k, len(data), ifaces[iface])
			return
		}
		r.Ev(uint64(kind), uint64(k), uint64(iface), o.hash)
		trace(r, "%s via %s: %s (k=%d failTo=%d failNth=%d, must fail: %v): error %v, %d faults in %d accesses", name, ifaces[iface], what, k, d.FailTo, d.FailNth, must, o.err, d.Fired, d.Accesses)
		r.Add("short reads", int64(d.Shorts))
		if d.Fired > 0 || kind == 0 && k < len(data) {
			r.Count("fault: " + what + " (" + ifaces[iface] + ")")
		}
		if must && o.err == nil {
			r.Violate("read-fault-lost/"+name+"/"+what, "%s via %s: succeeded although the %s: k=%d of %d (tables end at %d), range to %d, injected error %v",
				name, ifaces[iface], what, k, len(data), end, d.FailTo, d.Err)
			return
		}
		if o.err == nil && !o.same(base) {
			r.Violate("read-fault-wrong-data/"+name+"/"+what, "%s via %s: %s: succeeded with a different font: k=%d of %d (tables end at %d), injected error %v",
				name, ifaces[iface], what, k, len(data), end, d.Err)
			return
		}
		if o.err != nil {
			r.Count("read faults reported")
			if d.Fired > 0 && errors.Is(o.err, d.Err) {
				r.Count("read faults reported with the device's own error")
			}
		} else {
			r.Count("faults outside the data needed (tolerated)")
		}
	}
}
