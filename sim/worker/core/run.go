package core

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
)

// Prop is one property's simulation.
type Prop struct {
	ID string
	// Run draws a scenario from r.C and executes it, calling r.Violate when
	// the property fails.  It runs inside a simulated goroutine.
	Run func(r *Run)
	// MapSeeded runs use seeded map iteration orders.
	// Gaps are the candidate mean preemption gaps (0: none).
	Gaps []uint64
	// Budget is the default step budget per run.
	Budget  uint64
	HeapMax uint64
	// Init is called once per process, outside the simulation.
	Init func(tier string)
	// Group is the number of consecutive run indices that share a scenario
	// kind; unused by most.
	Race bool
	// MapFixed keeps all map iteration orders constant, so that a result
	// never depends on them.
	MapFixed bool
}

// Violation describes a failed check.
type Violation struct {
	Class string `json:"class"` // stable signature: identifies the call site / oracle that failed
	Msg   string `json:"msg"`
}

// Run is one simulated run.
type Run struct {
	C       *C
	Index   uint64 // run number inside the batch
	Tier    string
	Verbose bool
	Log     []string

	logHash uint64
	logN    int
	Stats   map[string]int64
	Viol    *Violation
	// SimNanos is the simulated time consumed by this run.
	SimNanos int64
	// NonTrivial marks runs that count towards distinct_nontrivial.
	NonTrivial bool
	done       atomic.Bool

	rootID int
}

// Logf records an event.  The running hash of all events identifies the run.
func (r *Run) Logf(format string, args ...any) {
	if !r.Verbose && r.logN > 20000 {
		r.logN++
		return
	}
	s := fmt.Sprintf(format, args...)
	r.logN++
	h := r.logHash
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}
	h ^= 0xff
	h *= 0x100000001b3
	r.logHash = h
	if r.Verbose && len(r.Log) < 4000 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.Log = append(r.Log, s)
	}
}

// Ev hashes an event without formatting.
func (r *Run) Ev(vals ...uint64) {
	h := r.logHash
	for _, v := range vals {
		h ^= v
		h *= 0x100000001b3
		h ^= h >> 31
	}
	r.logHash = h
}

// Count increments a counter (fault kinds fired, probes reached, ...).
func (r *Run) Count(name string) { r.Stats[name]++ }

func (r *Run) Add(name string, n int64) { r.Stats[name] += n }

// Violate records a violation (the first one wins).
func (r *Run) Violate(class, format string, args ...any) {
	if r.Viol == nil {
		r.Viol = &Violation{Class: class, Msg: fmt.Sprintf(format, args...)}
		r.Logf("VIOLATION %s: %s", class, r.Viol.Msg)
	}
}

// Catch runs f and returns the recovered panic value and a stack summary.
func Catch(f func()) (val any, where string) {
	defer func() {
		if v := recover(); v != nil {
			val = v
			where = PanicSite()
		}
	}()
	f()
	return nil, ""
}

// PanicSite extracts the innermost function of the code under test from the
// stack of the current panic.  A panic raised by the harness itself gives a
// name that does not start with "seehuhn.de/".
func PanicSite() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(3, pc)
	frames := runtime.CallersFrames(pc[:n])
	first := ""
	inPanic := false
	for {
		f, more := frames.Next()
		if !inPanic {
			// skip the deferred functions which run on top of the panic
			if f.Function == "runtime.gopanic" {
				inPanic = true
			}
			if !more {
				break
			}
			continue
		}
		if strings.HasPrefix(f.Function, "verif/") {
			return f.Function
		}
		if strings.HasPrefix(f.Function, "seehuhn.de/go/") {
			return f.Function
		}
		if first == "" && !strings.HasPrefix(f.Function, "runtime.") && !strings.HasPrefix(f.Function, "verif/") {
			first = f.Function
		}
		if !more {
			break
		}
	}
	if first == "" {
		first = "unknown"
	}
	return first
}

// Guard runs f; a panic is reported as a violation.
func (r *Run) Guard(what string, f func()) bool {
	v, where := Catch(f)
	if v != nil {
		if h, ok := v.(harnessError); ok {
			panic(h)
		}
		if !strings.HasPrefix(where, "seehuhn.de/") {
			Harness("%s: panic in %s: %v", what, where, v)
		}
		r.Violate(r.overClass("panic")+"/"+what+"/"+where, "%s: panic: %v (in %s)", what, short(v), where)
		return false
	}
	return true
}

func (r *Run) overClass(def string) string {
	switch runtime.SimOver() {
	case 1:
		return "hang"
	case 2, 3:
		return "alloc"
	}
	return def
}

func short(v any) string {
	s := fmt.Sprint(v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

type harnessError struct{ s string }

// Harness aborts the process: the machinery itself is broken.
func Harness(format string, args ...any) {
	panic(harnessError{fmt.Sprintf(format, args...)})
}

// Sched is an explicit schedule.
type Sched struct {
	Pre  []uint64 `json:"preempt,omitempty"`
	Pick []uint64 `json:"pick,omitempty"`
}

// Spec fully determines a run.
type Spec struct {
	Prop     string   `json:"property"`
	Tier     string   `json:"tier"`
	Index    uint64   `json:"index"`
	Seed     uint64   `json:"seed"`
	Choices  []uint64 `json:"choices"` // nil: draw from Seed
	Replay   bool     `json:"replay"`
	SchedSet bool     `json:"sched_set"`
	Sched    Sched    `json:"sched"`
	MapFixed bool     `json:"map_fixed"`
	MapSeed  uint64   `json:"map_seed"`
	Verbose  bool     `json:"verbose"`
}

// Result is what a run reports.
type Result struct {
	Index      uint64           `json:"index"`
	Seed       uint64           `json:"seed"`
	Viol       *Violation       `json:"viol,omitempty"`
	Choices    []uint64         `json:"choices,omitempty"`
	Sched      Sched            `json:"sched"`
	Lost       bool             `json:"lost,omitempty"`
	MapFixed   bool             `json:"map_fixed"`
	MapSeed    uint64           `json:"map_seed"`
	Steps      uint64           `json:"steps"`
	Picks      uint64           `json:"picks"`
	Preempts   uint64           `json:"preempts"`
	Switches   uint64           `json:"switches"`
	LogHash    uint64           `json:"log_hash"`
	SchedHash  uint64           `json:"sched_hash"`
	SimNanos   int64            `json:"sim_nanos"`
	Stats      map[string]int64 `json:"stats,omitempty"`
	Log        []string         `json:"log,omitempty"`
	NonTrivial bool             `json:"nontrivial"`
	Heap       uint64           `json:"heap"`
	Harness    string           `json:"harness,omitempty"`
}

// Exec performs one run.
func Exec(p *Prop, sp *Spec) *Result {
	r := &Run{Index: sp.Index, Tier: sp.Tier, Verbose: sp.Verbose, Stats: map[string]int64{}, logHash: 0xcbf29ce484222325}
	if sp.Replay {
		r.C = ReplayC(sp.Choices)
	} else {
		r.C = NewC(sp.Seed)
	}
	cfg := &runtime.SimConfig{
		Seed:     Mix(sp.Seed ^ 0x1111),
		MapSeed:  sp.MapSeed,
		MapFixed: sp.MapFixed || p.MapFixed,
		Budget:   p.Budget,
		HeapMax:  p.HeapMax,
	}
	if sp.SchedSet {
		cfg.Replay = true
		cfg.Pre = sp.Sched.Pre
		cfg.Pick = sp.Sched.Pick
	} else if len(p.Gaps) > 0 {
		cfg.Gap = p.Gaps[Mix(sp.Seed^0x2222)%uint64(len(p.Gaps))]
	}
	var harness string
	var rep runtime.SimReport
	runtime.SimBegin(cfg)
	go func() {
		defer func() {
			if v := recover(); v != nil {
				if h, ok := v.(harnessError); ok {
					harness = h.s
				} else {
					where := PanicSite()
					if strings.HasPrefix(where, "seehuhn.de/") {
						r.Violate(r.overClass("panic")+"/"+where, "panic: %v (in %s)", short(v), where)
					} else {
						harness = fmt.Sprintf("harness panic: %v\n%s", v, debug.Stack())
					}
				}
			}
			r.done.Store(true)
		}()
		r.rootID = runtime.SimID()
		p.Run(r)
	}()
	live := runtime.SimQuiesce()
	if !r.done.Load() {
		r.Violate("deadlock", "simulation is stuck: %d goroutines blocked forever", live)
	} else if live != 0 {
		r.Violate("leak", "%d goroutines left running after the run", live)
	}
	runtime.SimEnd(&rep)
	if r.Viol == nil && harness == "" {
		switch rep.Over {
		case 1:
			r.Violate("hang", "step budget exceeded (and the panic was swallowed)")
		case 2, 3:
			r.Violate("alloc", "heap budget exceeded (and the panic was swallowed): %d", rep.OverSize)
		}
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %d", r.logHash, r.logN)
	res := &Result{
		Index: sp.Index, Seed: sp.Seed, Viol: r.Viol,
		Sched: Sched{rep.Pre, rep.Pick}, Lost: rep.Lost,
		MapFixed: sp.MapFixed, MapSeed: sp.MapSeed,
		Steps: rep.Steps, Picks: rep.Picks, Preempts: rep.Preempts, Switches: rep.Switches,
		LogHash: h.Sum64(), SchedHash: rep.Hash,
		SimNanos: r.SimNanos, Stats: r.Stats, Log: r.Log, NonTrivial: r.NonTrivial,
		Heap: rep.HeapUsed, Harness: harness,
	}
	if rep.NowCalls > 0 {
		r.Stats["clock reads"] += int64(rep.NowCalls)
	}
	res.Choices = r.C.Rec
	return res
}
