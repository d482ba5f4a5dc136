// Command worker executes simulated runs.  It is always built with the
// simulation overlay (patched runtime, instrumented code under test).
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"verif/sim/worker/core"
	"verif/sim/worker/props"
)

type request struct {
	Cmd   string     `json:"cmd"`
	Prop  string     `json:"prop"`
	Tier  string     `json:"tier"`
	Seed  uint64     `json:"seed"`
	From  uint64     `json:"from"`
	To    uint64     `json:"to"`
	Twice bool       `json:"twice"`
	Spec  *core.Spec `json:"spec"`
}

type batchReply struct {
	Runs     int64            `json:"runs"`
	NonTriv  int64            `json:"nontriv"`
	Stats    map[string]int64 `json:"stats"`
	Steps    uint64           `json:"steps"`
	Picks    uint64           `json:"picks"`
	Preempts uint64           `json:"preempts"`
	Switches uint64           `json:"switches"`
	SimNanos int64            `json:"sim_nanos"`
	Hashes   []uint64         `json:"hashes"` // per run: event log + schedule, nontrivial runs
	Scheds   []uint64         `json:"scheds"` // per run: schedule hash
	Digest   uint64           `json:"digest"` // order-dependent digest of all runs
	MaxSteps uint64           `json:"max_steps"`
	MaxHeap  uint64           `json:"max_heap"`
	Viols    []*core.Result   `json:"viols"`
	NViol    map[string]int64 `json:"nviol"`
	Diverged []uint64         `json:"diverged"` // run numbers whose second execution differed
	Harness  string           `json:"harness"`
	Samples  []sample         `json:"samples"`
}

type sample struct {
	Index uint64   `json:"index"`
	Seed  uint64   `json:"seed"`
	Log   []string `json:"log"`
}

func runSeed(base uint64, prop string, idx uint64) uint64 {
	s := core.Mix(base)
	for _, c := range prop {
		s = core.Mix(s ^ uint64(c))
	}
	return core.Mix(s ^ idx*0x9e3779b97f4a7c15)
}

func digest(res *core.Result) uint64 {
	d := core.Mix(res.LogHash)
	d = core.Mix(d ^ res.SchedHash)
	d = core.Mix(d ^ res.Steps)
	d = core.Mix(d ^ res.Picks)
	d = core.Mix(d ^ uint64(res.SimNanos))
	if res.Viol != nil {
		for _, c := range res.Viol.Class {
			d = core.Mix(d ^ uint64(c))
		}
	}
	return d
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(64 << 20)
	runtime.MemProfileRate = 0

	var marker *os.File
	if len(os.Args) > 1 {
		f, err := os.OpenFile(os.Args[1], os.O_RDWR|os.O_CREATE, 0o600)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		marker = f
	}
	mark := func(v uint64) {
		if marker != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], v)
			marker.WriteAt(b[:], 0)
		}
	}

	inits := map[string]bool{}
	get := func(id, tier string) *core.Prop {
		p := props.All[id]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(3)
		}
		if !inits[id] {
			inits[id] = true
			if p.Init != nil {
				p.Init(tier)
			}
			runtime.GC()
		}
		return p
	}

	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(out)
	dec := json.NewDecoder(in)
	for {
		var rq request
		if err := dec.Decode(&rq); err != nil {
			return
		}
		switch rq.Cmd {
		case "one":
			p := get(rq.Spec.Prop, rq.Spec.Tier)
			mark(rq.Spec.Index)
			res := core.Exec(p, rq.Spec)
			enc.Encode(res)
			out.Flush()
			if runtime.SimHeapAbs() > 256<<20 {
				runtime.GC()
			}
		case "batch":
			p := get(rq.Prop, rq.Tier)
			rep := &batchReply{Stats: map[string]int64{}, NViol: map[string]int64{}}
			for idx := rq.From; idx < rq.To; idx++ {
				mark(idx)
				seed := runSeed(rq.Seed, rq.Prop, idx)
				sp := &core.Spec{Prop: rq.Prop, Tier: rq.Tier, Index: idx, Seed: seed, MapSeed: core.Mix(seed ^ 0x3333)}
				res := core.Exec(p, sp)
				if res.Harness != "" {
					rep.Harness = fmt.Sprintf("run %d seed %d: %s", idx, seed, res.Harness)
					break
				}
				d := digest(res)
				if rq.Twice {
					if runtime.SimHeapAbs() > 256<<20 {
						runtime.GC()
					}
					res2 := core.Exec(p, sp)
					if digest(res2) != d {
						rep.Diverged = append(rep.Diverged, idx)
					}
				}
				rep.Digest = core.Mix(rep.Digest ^ d)
				rep.Runs++
				if res.NonTrivial {
					rep.NonTriv++
					rep.Hashes = append(rep.Hashes, core.Mix(res.LogHash)^res.SchedHash)
				}
				rep.Scheds = append(rep.Scheds, res.SchedHash)
				for k, v := range res.Stats {
					rep.Stats[k] += v
				}
				rep.Steps += res.Steps
				rep.Picks += res.Picks
				rep.Preempts += res.Preempts
				rep.Switches += res.Switches
				rep.SimNanos += res.SimNanos
				rep.MaxSteps = max(rep.MaxSteps, res.Steps)
				rep.MaxHeap = max(rep.MaxHeap, res.Heap)
				if res.Viol != nil {
					rep.NViol[res.Viol.Class]++
					if rep.NViol[res.Viol.Class] <= 2 {
						rep.Viols = append(rep.Viols, res)
					}
					if strings.HasPrefix(res.Viol.Class, "hang") {
						break // every further hang costs the whole step budget
					}
				}
				if runtime.SimHeapAbs() > 256<<20 {
					runtime.GC()
				}
			}
			enc.Encode(rep)
			out.Flush()
		case "sample":
			p := get(rq.Prop, rq.Tier)
			rep := &batchReply{}
			for idx := rq.From; idx < rq.To; idx++ {
				mark(idx)
				seed := runSeed(rq.Seed, rq.Prop, idx)
				res := core.Exec(p, &core.Spec{Prop: rq.Prop, Tier: rq.Tier, Index: idx, Seed: seed, MapSeed: core.Mix(seed ^ 0x3333), Verbose: true})
				log := res.Log
				if len(log) > 12 {
					log = append(log[:12:12], fmt.Sprintf("... %d more events", len(res.Log)-12))
				}
				rep.Samples = append(rep.Samples, sample{idx, seed, log})
			}
			enc.Encode(rep)
			out.Flush()
		}
	}
}
