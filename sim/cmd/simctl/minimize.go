package main

import (
	"time"
)

// tester executes specs in worker processes.
type tester struct {
	bin, dir string
	w        *worker
	n        int
	deadline time.Time
}

func (t *tester) close() {
	t.w.stop()
	t.w = nil
}

// exec runs one spec; fresh forces a new process.
func (t *tester) exec(sp *spec, fresh bool) (*result, *violation, error) {
	t.n++
	if fresh {
		t.close()
	}
	if t.w == nil {
		w, err := startWorker(t.bin, t.dir)
		if err != nil {
			return nil, nil, err
		}
		t.w = w
	}
	res := &result{}
	crash, err := t.w.call(&request{Cmd: "one", Spec: sp}, res, 120*time.Second)
	if err != nil {
		t.close()
		return nil, nil, err
	}
	if crash != nil {
		t.close()
		return nil, crash, nil
	}
	return res, res.Viol, nil
}

// fails reports whether sp still shows the given violation class.
func (t *tester) fails(sp *spec, class string) (*result, bool) {
	res, v, err := t.exec(sp, false)
	if err != nil || v == nil || v.Class != class {
		return nil, false
	}
	return res, true
}

func clone(sp *spec) *spec {
	c := *sp
	c.Choices = append([]uint64{}, sp.Choices...)
	c.Sched.Pre = append([]uint64{}, sp.Sched.Pre...)
	c.Sched.Pick = append([]uint64{}, sp.Sched.Pick...)
	return &c
}

// minimize shrinks the choice list and the schedule while the same violation
// class persists.
func (t *tester) minimize(sp *spec, class string) *spec {
	best := clone(sp)
	expired := func() bool { return time.Now().After(t.deadline) }
	try := func(c *spec) bool {
		if expired() {
			return false
		}
		res, ok := t.fails(c, class)
		if !ok {
			return false
		}
		if res != nil && res.Choices != nil && len(res.Choices) <= len(c.Choices) {
			c.Choices = res.Choices // normalised: what was really used
		}
		best = c
		return true
	}
	if !best.MapFixed {
		c := clone(best)
		c.MapFixed = true
		try(c)
	}
	shrinkSched := func() {
		c := clone(best)
		c.Sched = sched{}
		if try(c) {
			return
		}
		c = clone(best)
		c.Sched.Pick = nil
		try(c)
		c = clone(best)
		c.Sched.Pre = nil
		try(c)
		for _, which := range []int{0, 1} {
			unit := 1 + which
			get := func(s *spec) *[]uint64 {
				if which == 0 {
					return &s.Sched.Pre
				}
				return &s.Sched.Pick
			}
			n := len(*get(best)) / unit
			for size := (n + 1) / 2; size >= 1; size /= 2 {
				for i := 0; i*unit < len(*get(best)); {
					if expired() {
						return
					}
					c := clone(best)
					l := *get(c)
					a, b := i*unit, min((i+size)*unit, len(l))
					*get(c) = append(append([]uint64{}, l[:a]...), l[b:]...)
					if !try(c) {
						i += size
					}
				}
			}
		}
	}
	shrinkSched()
	for round := 0; round < 6 && !expired(); round++ {
		before := len(best.Choices)
		sum := uint64(0)
		for _, v := range best.Choices {
			sum += v
		}
		// delete chunks
		for size := max(1, len(best.Choices)/2); size >= 1; size /= 2 {
			for i := len(best.Choices) - size; i >= 0 && !expired(); i -= size {
				if i+size > len(best.Choices) {
					continue
				}
				c := clone(best)
				c.Choices = append(c.Choices[:i], c.Choices[i+size:]...)
				try(c)
			}
		}
		// zero chunks
		for size := max(1, len(best.Choices)/4); size >= 1; size /= 2 {
			for i := 0; i < len(best.Choices) && !expired(); i += size {
				c := clone(best)
				nz := false
				for j := i; j < min(i+size, len(c.Choices)); j++ {
					nz = nz || c.Choices[j] != 0
					c.Choices[j] = 0
				}
				if nz {
					try(c)
				}
			}
		}
		// reduce values
		for i := 0; i < len(best.Choices) && !expired(); i++ {
			lo := uint64(0)
			for i < len(best.Choices) && best.Choices[i] > lo && !expired() {
				c := clone(best)
				mid := lo + (best.Choices[i]-lo)/2
				c.Choices[i] = mid
				if !try(c) {
					lo = mid + 1
				}
			}
		}
		shrinkSched()
		after := uint64(0)
		for _, v := range best.Choices {
			after += v
		}
		if len(best.Choices) == before && after == sum {
			break
		}
	}
	return best
}
