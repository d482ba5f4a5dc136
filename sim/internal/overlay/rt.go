// Package overlay builds the "go build -overlay" file that turns a normal Go
// program into a deterministic simulation: patched copies of a few runtime
// files (seeded scheduler, seeded map iteration, simulated wall clock, no
// time-based preemption) and copies of the code under test with a yield point
// in front of every statement.
package overlay

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

type edit struct {
	old, new string
	n        int // expected number of occurrences
}

// runtimePatches lists the textual patches applied to GOROOT/src files.
// Every patch must match exactly; otherwise the build fails loudly.
var runtimePatches = map[string][]edit{
	"runtime/runtime2.go": {
		{"	gcAssistBytes int64\n", "	gcAssistBytes int64\n\n	simID int32 // simulator: >0 simulated goroutine, -1 driver, 0 everything else\n", 1},
	},
	"runtime/proc.go": {
		{"func runqget(pp *p) (gp *g, inheritTime bool) {\n",
			"func runqget(pp *p) (gp *g, inheritTime bool) {\n	if simOn {\n		return simRunqget(pp), false\n	}\n", 1},
		{"func runqput(pp *p, gp *g, next bool) {\n",
			"func runqput(pp *p, gp *g, next bool) {\n	if simOn {\n		next = false\n	}\n", 1},
		{"	if preempted && sched.gcwaiting.Load() {\n",
			"	if simOn {\n		runqput(pp, gp, false)\n	} else if preempted && sched.gcwaiting.Load() {\n", 1},
		{"func preemptone(pp *p) bool {\n",
			"func preemptone(pp *p) bool {\n	if simOn {\n		return false\n	}\n", 1},
		{"func retake(now int64) uint32 {\n",
			"func retake(now int64) uint32 {\n	if simOn {\n		return 0 // a system call keeps its P\n	}\n", 1},
		{"	newg.parentGoid = callergp.goid\n",
			"	newg.parentGoid = callergp.goid\n	newg.simID = 0\n	if simOn && callergp.simID != 0 {\n		simSpawn(newg, callergp)\n	}\n", 1},
		{"	gp.m = nil\n	locked := gp.lockedm != 0\n",
			"	gp.m = nil\n	if gp.simID > 0 {\n		simExit(gp)\n	}\n	locked := gp.lockedm != 0\n", 1},
	},
	"runtime/rand.go": {
		{"	globalRand.state.Init(*seed)\n",
			"	for i := range seed {\n		seed[i] = byte(i*7 + 1)\n	}\n	globalRand.state.Init(*seed)\n", 1},
		{"func rand() uint64 {\n	// Note",
			"func rand() uint64 {\n	if simOn && getg().simID > 0 {\n		return simRand()\n	}\n	if !simOn {\n		// maps made during initialisation; these must not depend on the\n		// thread which happens to run the initialisation\n		return 0x9e3779b97f4a7c15\n	}\n	// Note", 1},
		{"func cheaprand() uint32 {\n",
			"func cheaprand() uint32 {\n	if simOn && getg().simID > 0 {\n		return uint32(simRand2() >> 32)\n	}\n", 1},
		{"func cheaprandu64() uint64 {\n",
			"func cheaprandu64() uint64 {\n	if simOn && getg().simID > 0 {\n		return simRand2()\n	}\n", 1},
	},
	"runtime/slice.go": {
		{"	return mallocgc(mem, et, true)\n}\n\nfunc makeslice64(",
			"	if simOn && mem >= simBigAlloc {\n		simCheckBig(mem)\n	}\n	return mallocgc(mem, et, true)\n}\n\nfunc makeslice64(", 1},
		{"	var p unsafe.Pointer\n	if !et.Pointers() {\n		p = mallocgc(capmem, nil, false)\n		// The append() that calls growslice is",
			"	if simOn && capmem >= simBigAlloc {\n		simCheckBig(capmem)\n	}\n	var p unsafe.Pointer\n	if !et.Pointers() {\n		p = mallocgc(capmem, nil, false)\n		// The append() that calls growslice is", 1},
	},
	"runtime/sema.go": {
		{"func internal_sync_nanotime() int64 {\n",
			"func internal_sync_nanotime() int64 {\n	if simOn {\n		return int64(simSteps)\n	}\n", 1},
	},
	"time/time.go": {
		{"func Now() Time {\n",
			"func Now() Time {\n	if s, n, ok := runtimeSimNow(); ok {\n		return Time{uint64(n), s + unixToInternal, UTC}\n	}\n", 1},
		{"func runtimeNow() (sec int64, nsec int32, mono int64)\n",
			"func runtimeNow() (sec int64, nsec int32, mono int64)\n\n//go:linkname runtimeSimNow\nfunc runtimeSimNow() (sec int64, nsec int32, ok bool)\n", 1},
	},
}

const simRuntime = `package runtime

import (
	"internal/runtime/atomic"
	"unsafe"
	_ "unsafe"
)

// Deterministic simulation support.  All state below is only touched while a
// single P exists (GOMAXPROCS(1)).

const simBigAlloc = 1 << 16

var (
	simOn      bool
	simNext    int32 // last simulated goroutine id handed out
	simLive    int32 // live simulated goroutines
	simSpawned int32

	// decision streams
	simPickState uint64
	simGapState  uint64
	simMapState  uint64
	simMapState2 uint64
	simMapFixed  bool

	// preemption
	simSteps     uint64 // yield points passed
	simGap       uint64 // mean gap between preemptions; 0: none
	simNextPre   uint64 // next step number at which to preempt
	simNextCheck uint64
	simBudget    uint64 // step budget
	simHeap0     uint64
	simHeapMax   uint64
	simOver      int32 // 1: step budget, 2: heap budget, 3: one huge allocation
	simOverSize  uint64

	// explicit schedule (replay); sorted step numbers, and pick numbers
	simReplay  bool
	simRPre    []uint64
	simRPick   []uint64 // pairs (pick index, choice)
	simRPrePos int
	simRPickPos int

	// recorded schedule
	simRecPre   []uint64
	simRecPick  []uint64
	simRecPreN  int
	simRecPickN int
	simRecLost  bool

	simPicks    uint64 // pick decisions (>=2 candidates)
	simSwitches uint64
	simLastG    int32
	simHash     uint64
	simPreempts uint64

	simSec  int64
	simNsec int32
	simClk  bool
	simNowCalls uint64
	simTrace []uint64
	simTraceN int
)

// SimConfig describes one simulated run.
type SimConfig struct {
	Seed     uint64   // scheduling and select order
	MapSeed  uint64   // map seeds and map iteration order
	MapFixed bool     // all map randomness constant zero
	Gap      uint64   // mean number of yield points between preemptions (0: never)
	Budget   uint64   // yield point budget (0: unlimited)
	HeapMax  uint64   // bytes of heap growth allowed (0: unlimited)
	Replay   bool     // use Pre/Pick instead of the PRNG
	Pre      []uint64
	Pick     []uint64
}

// SimReport describes what happened.
type SimReport struct {
	Steps, Picks, Preempts, Switches, Hash uint64
	Spawned int
	Over     int
	OverSize uint64
	HeapUsed uint64
	NowCalls uint64
	Pre, Pick []uint64
	Lost bool
}

type simOverError struct{ s string }

func (e simOverError) Error() string { return e.s }
func (e simOverError) RuntimeError() {}

//go:nosplit
func simMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRand() uint64 {
	if simMapFixed {
		return 0
	}
	return simKeyed(simMapState)
}

// simKeyed gives the pseudo-random value for the current step.  Tying the
// values to the step counter (instead of using one stream) keeps a one-time
// initialisation in the standard library from shifting everything after it.
//
//go:nosplit
func simKeyed(key uint64) uint64 {
	if simRandStep != simSteps {
		simRandStep = simSteps
		simRandN = 0
	}
	simRandN++
	x := key + simSteps*0xd1342543de82ef95 + simRandN*0x2545f4914f6cdd1d
	return simMix(&x)
}

var simRandStep, simRandN uint64

//go:nosplit
func simRand2() uint64 {
	return simKeyed(simMapState2)
}

func simSpawn(newg, caller *g) {
	simNext++
	simSpawned++
	simLive++
	newg.simID = simNext
}

func simExit(gp *g) {
	gp.simID = 0
	if simOn {
		simLive--
	}
}

// simRunqget removes the next goroutine to run from the local run queue:
// system goroutines first, then a seeded choice among the simulated ones, the
// driver only when nothing else is runnable.
func simRunqget(pp *p) *g {
	if next := pp.runnext; next != 0 {
		if pp.runnext.cas(next, 0) {
			runqput(pp, next.ptr(), false)
		}
	}
	h := atomic.LoadAcq(&pp.runqhead)
	t := pp.runqtail
	if t == h {
		return nil
	}
	n := uint32(len(pp.runq))
	cnt := uint64(0)
	sel := h
	found := false
	driver := h
	drvID := int32(0)
	for i := h; i != t; i++ {
		id := pp.runq[i%n].ptr().simID
		if id == 0 {
			sel = i
			found = true
			cnt = 0
			break
		}
		if id > 0 {
			cnt++
		} else if id < drvID {
			// -2 (a simulated goroutine in SimIdle) goes before -1
			drvID = id
			driver = i
		}
	}
	if !found {
		if cnt == 0 {
			sel = driver
		} else {
			k := uint64(0)
			if cnt > 1 {
				k = simPick(cnt)
			}
			for i := h; i != t; i++ {
				if pp.runq[i%n].ptr().simID > 0 {
					if k == 0 {
						sel = i
						break
					}
					k--
				}
			}
		}
	}
	gp := pp.runq[sel%n].ptr()
	for i := sel; i != h; i-- {
		pp.runq[i%n] = pp.runq[(i-1)%n]
	}
	atomic.StoreRel(&pp.runqhead, h+1)
	if gp.simID > 0 && gp.simID != simLastG {
		simLastG = gp.simID
		simSwitches++
		x := uint64(gp.simID)<<40 ^ simSteps
		simHash ^= x
		simHash *= 0x100000001b3
		simHash ^= simHash >> 29
		if simTraceN < len(simTrace) {
			simTrace[simTraceN] = uint64(gp.simID)<<48 | simSteps
			simTraceN++
		}
	}
	return gp
}

func simPick(n uint64) uint64 {
	idx := simPicks
	simPicks++
	var c uint64
	if simReplay {
		for simRPickPos < len(simRPick) && simRPick[simRPickPos] < idx {
			simRPickPos += 2
		}
		if simRPickPos < len(simRPick) && simRPick[simRPickPos] == idx {
			c = simRPick[simRPickPos+1] % n
		}
	} else {
		c = simMix(&simPickState) % n
	}
	if c != 0 {
		if simRecPickN+2 <= len(simRecPick) {
			simRecPick[simRecPickN] = idx
			simRecPick[simRecPickN+1] = c
			simRecPickN += 2
		} else {
			simRecLost = true
		}
	}
	return c
}

func simSetNextPre() {
	if simReplay {
		for simRPrePos < len(simRPre) && simRPre[simRPrePos] <= simSteps {
			simRPrePos++
		}
		if simRPrePos < len(simRPre) {
			simNextPre = simRPre[simRPrePos]
		} else {
			simNextPre = ^uint64(0)
		}
	} else if simGap == 0 {
		simNextPre = ^uint64(0)
	} else {
		simNextPre = simSteps + 1 + simMix(&simGapState)%(2*simGap)
	}
	simSetCheck()
}

func simSetCheck() {
	c := (simSteps | 0xfff) + 1
	if simNextPre < c {
		c = simNextPre
	}
	if simBudget != 0 && simBudget < c && simSteps < simBudget {
		c = simBudget
	}
	simNextCheck = c
}

// SimY is a yield point, inserted in front of every statement of the code
// under test.
func SimY() {
	if !simOn {
		return
	}
	if getg().simID <= 0 {
		return
	}
	simSteps++
	if simSteps >= simNextCheck {
		simYSlow()
	}
}

func simYSlow() {
	if simBudget != 0 && simSteps >= simBudget {
		if simOver == 0 {
			simOver = 1
		}
		simBudget = simSteps + 1<<14 // let deferred code run, but not for ever
		simSetCheck()
		panic(simOverError{"simulator: step budget exceeded"})
	}
	if simHeapMax != 0 {
		if used := gcController.heapLive.Load() - simHeap0; int64(used) > int64(simHeapMax) {
			if simOver == 0 {
				simOver = 2
				simOverSize = used
			}
			simHeapMax += 1 << 26
			simSetCheck()
			panic(simOverError{"simulator: heap budget exceeded"})
		}
	}
	if simSteps >= simNextPre && simLive <= 1 {
		simSetNextPre() // nobody else to run
		return
	}
	if simSteps >= simNextPre {
		if simRecPreN < len(simRecPre) {
			simRecPre[simRecPreN] = simSteps
			simRecPreN++
		} else {
			simRecLost = true
		}
		simPreempts++
		simSetNextPre()
		Gosched()
		return
	}
	simSetCheck()
}

func simCheckBig(mem uintptr) {
	gp := getg()
	if gp != gp.m.curg || gp.simID <= 0 || simHeapMax == 0 {
		return
	}
	used := int64(gcController.heapLive.Load() - simHeap0)
	if used < 0 {
		used = 0
	}
	if uint64(used)+uint64(mem) > simHeapMax {
		if simOver == 0 {
			simOver = 3
			simOverSize = uint64(mem)
		}
		panic(simOverError{"simulator: heap budget exceeded by one allocation"})
	}
}

// SimYield is an explicit scheduling point for simulated devices.
func SimYield() {
	if simOn && getg().simID > 0 {
		simSteps++
		if simSteps >= simNextCheck {
			simYSlow()
		}
	}
}

// SimID returns the id of the calling simulated goroutine.
func SimID() int { return int(getg().simID) }

// SimSteps returns the number of yield points passed so far in this run.
func SimSteps() uint64 { return simSteps }

// SimHeap returns the heap growth since the start of the run.
func SimHeap() int64 { return int64(gcController.heapLive.Load() - simHeap0) }

// SimHeapAbs returns the current heap size.
func SimHeapAbs() uint64 { return gcController.heapLive.Load() }

// SimOver reports whether a budget has been exceeded in this run.
func SimOver() int { return int(simOver) }

// SimClearOver forgets an exceeded budget (the caller has dealt with it).
func SimClearOver() { simOver = 0 }

// SimSetBudget sets the absolute step number at which the run is aborted.
func SimSetBudget(b, heapMax uint64) {
	simBudget = b
	simHeapMax = heapMax
	simSetCheck()
}

// SimBegin starts simulation mode; the caller becomes the driver.
func SimBegin(c *SimConfig) {
	if gomaxprocs != 1 {
		throw("simulation needs GOMAXPROCS(1)")
	}
	if simRecPre == nil {
		simRecPre = make([]uint64, 1<<17)
		simRecPick = make([]uint64, 1<<17)
	}
	gp := getg()
	gp.simID = -1
	simNext, simLive, simSpawned = 0, 0, 0
	simPickState = c.Seed ^ 0x5851f42d4c957f2d
	simGapState = c.Seed ^ 0x14057b7ef767814f
	simMapState = c.MapSeed ^ 0x2545f4914f6cdd1d
	simMapState2 = c.Seed ^ 0x9e6c63d0876a9a47
	simMapFixed = c.MapFixed
	simSteps = 0
	simRandStep, simRandN = 0, 0
	simGap = c.Gap
	simBudget = c.Budget
	simHeap0 = gcController.heapLive.Load()
	simHeapMax = c.HeapMax
	simOver, simOverSize = 0, 0
	simReplay = c.Replay
	simRPre, simRPick = c.Pre, c.Pick
	simRPrePos, simRPickPos = 0, 0
	simRecPreN, simRecPickN = 0, 0
	simRecLost = false
	simPicks, simSwitches, simPreempts = 0, 0, 0
	simLastG = 0
	simHash = 0xcbf29ce484222325
	simNowCalls = 0
	simClk = false
	simTraceN = 0
	simSetNextPre()
	simOn = true
}

// SimQuiesce runs all simulated goroutines until none is runnable.  It returns
// the number of simulated goroutines that still exist (blocked).
func SimQuiesce() int {
	Gosched()
	return int(simLive)
}

// SimIdle lets all other simulated goroutines run until none of them is
// runnable.  It returns the number of other simulated goroutines that still
// exist (all of them blocked).
func SimIdle() int {
	gp := getg()
	id := gp.simID
	gp.simID = -2
	Gosched()
	gp.simID = id
	return int(simLive) - 1
}

// SimEnd leaves simulation mode.
func SimEnd(r *SimReport) {
	simOn = false
	getg().simID = 0
	r.Steps, r.Picks, r.Preempts, r.Switches, r.Hash = simSteps, simPicks, simPreempts, simSwitches, simHash
	r.Spawned = int(simSpawned)
	r.Over = int(simOver)
	r.OverSize = simOverSize
	r.HeapUsed = gcController.heapLive.Load() - simHeap0
	r.NowCalls = simNowCalls
	r.Pre = append([]uint64(nil), simRecPre[:simRecPreN]...)
	r.Pick = append([]uint64(nil), simRecPick[:simRecPickN]...)
	r.Lost = simRecLost
}

// SimSetClock sets the simulated wall clock.
func SimSetClock(sec int64, nsec int32) {
	simSec, simNsec, simClk = sec, nsec, true
}

// SimSetTrace installs a buffer which receives (goroutine<<48 | step) for
// every context switch.
func SimSetTrace(buf []uint64) { simTrace = buf; simTraceN = 0 }

// SimTraceLen returns the number of recorded context switches.
func SimTraceLen() int { return simTraceN }

//go:linkname time_runtimeSimNow time.runtimeSimNow
func time_runtimeSimNow() (sec int64, nsec int32, ok bool) {
	if !simOn || getg().simID == 0 || !simClk {
		return 0, 0, false
	}
	simNowCalls++
	return simSec, simNsec, true
}

var _ unsafe.Pointer
`

// WriteRuntime writes the patched runtime files into dir and adds them to repl.
func WriteRuntime(goroot, dir string, repl map[string]string) error {
	for name, edits := range runtimePatches {
		src := filepath.Join(goroot, "src", name)
		data, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		s := string(data)
		for _, e := range edits {
			if c := strings.Count(s, e.old); c != e.n {
				return fmt.Errorf("runtime patch for %s does not apply: %d matches for %q", name, c, e.old)
			}
			s = strings.ReplaceAll(s, e.old, e.new)
		}
		dst := filepath.Join(dir, strings.ReplaceAll(name, "/", "_"))
		if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
			return err
		}
		repl[src] = dst
	}
	dst := filepath.Join(dir, "runtime_zsim.go")
	if err := os.WriteFile(dst, []byte(simRuntime), 0o644); err != nil {
		return err
	}
	repl[filepath.Join(goroot, "src", "runtime", "zsim.go")] = dst
	return nil
}
