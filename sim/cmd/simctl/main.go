// Command simctl is the coordinator: it builds the simulation of the current
// tree, searches seeds in parallel, minimises and replays failures, and writes
// the evidence file.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/sim/internal/overlay"
)

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "simctl: "+format+"\n", args...)
	if cleanup != "" {
		os.RemoveAll(cleanup)
	}
	os.Exit(2)
}

var cleanup string

type built struct {
	bin  string
	info *overlay.Info
	dir  string
	took time.Duration
}

func build(root string, race bool) *built {
	t0 := time.Now()
	base := filepath.Join(root, ".build")
	if err := os.MkdirAll(base, 0o755); err != nil {
		fatal("%v", err)
	}
	dir, err := os.MkdirTemp(base, "w")
	if err != nil {
		fatal("%v", err)
	}
	cleanup = dir
	simDir := filepath.Join(root, "sim")
	info, err := overlay.Generate(simDir, dir)
	if err != nil {
		fatal("generating the simulation overlay: %v", err)
	}
	b := &built{bin: filepath.Join(dir, "worker"), info: info, dir: dir}
	if err := overlay.BuildWorker(simDir, info, b.bin, race); err != nil {
		fatal("building the worker: %v", err)
	}
	b.took = time.Since(t0)
	return b
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: simctl check|replay|selftest|build ...")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "", "quick or thorough")
	root := fs.String("root", "/verif", "directory of the verification framework")
	runs := fs.Uint64("runs", 0, "override the number of runs")
	jobs := fs.Int("j", 0, "worker processes")
	out := fs.String("o", "", "output file (build)")
	race := fs.Bool("race", false, "race build (build)")
	from := fs.Uint64("from", 0, "first run (selftest)")
	fs.Parse(os.Args[2:])
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *jobs == 0 {
		*jobs = runtime.NumCPU()
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fatal("bad VERIF_SEED %q", s)
		}
		seed = uint64(v)
	}
	switch os.Args[1] {
	case "check":
		code := check(*root, *prop, *tier, seed, *runs, *jobs)
		os.RemoveAll(cleanup)
		os.Exit(code)
	case "replay":
		code := replay(*root, fs.Args())
		os.RemoveAll(cleanup)
		os.Exit(code)
	case "selftest":
		code := selftest(*root, *prop, *tier, seed, *from, *runs, *jobs)
		os.RemoveAll(cleanup)
		os.Exit(code)
	case "build":
		b := build(*root, *race)
		if err := os.Rename(b.bin, *out); err != nil {
			fatal("%v", err)
		}
		os.RemoveAll(cleanup)
	default:
		fatal("unknown command %q", os.Args[1])
	}
}

// replayFile is the on-disk form of a minimised failure.
type replayFile struct {
	Property  string     `json:"property"`
	VerifSeed uint64     `json:"verif_seed"`
	Violation *violation `json:"violation"`
	Spec      *spec      `json:"spec,omitempty"`
	Batch     *request   `json:"batch,omitempty"` // when the failure needs earlier runs in the same process
	Trace     []string   `json:"trace"`
	Original  *spec      `json:"original,omitempty"`
	HowTo     string     `json:"how_to"`
}

type known struct {
	prop, class, text string
}

func readKnown(root, prop string) []known {
	f, err := os.Open(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var res []known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		k := known{}
		head, text, _ := strings.Cut(line[len("known: "):], " :: ")
		k.text = text
		for _, w := range strings.SplitN(head, " ", 2) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				k.prop = v
			} else if v, ok := strings.CutPrefix(w, "class="); ok {
				k.class = v
			}
		}
		if k.prop == prop {
			res = append(res, k)
		}
	}
	return res
}

type found struct {
	v     *violation
	res   *result // nil for crashes
	index uint64
	from  uint64 // first run of the batch in which it was seen
	count int64
}

func runSeed(base uint64, prop string, idx uint64) uint64 {
	s := mix(base)
	for _, c := range prop {
		s = mix(s ^ uint64(c))
	}
	return mix(s ^ idx*0x9e3779b97f4a7c15)
}

func mix(s uint64) uint64 {
	s += 0x9e3779b97f4a7c15
	z := s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

type total struct {
	batchReply
	hashes map[uint64]struct{}
	scheds map[uint64]struct{}
	found  map[string]*found
	errs   []string
	digest map[uint64]uint64 // batch start -> digest
}

// search runs [from,to) in batches over jobs processes.
func search(b *built, cfg *propCfg, tier string, seed, from, to, batch uint64, jobs int, stopAt time.Time, maxCrash int) *total {
	t := &total{hashes: map[uint64]struct{}{}, scheds: map[uint64]struct{}{}, found: map[string]*found{}, digest: map[uint64]uint64{}}
	t.Stats = map[string]int64{}
	type job struct{ from, to uint64 }
	var mu sync.Mutex
	var queue []job
	for i := from; i < to; i += batch {
		queue = append(queue, job{i, min(i+batch, to)})
	}
	crashes, hangs := 0, 0
	next := func() (job, bool) {
		mu.Lock()
		defer mu.Unlock()
		if len(queue) == 0 || time.Now().After(stopAt) || len(t.errs) > 0 {
			return job{}, false
		}
		j := queue[0]
		queue = queue[1:]
		return j, true
	}
	note := func(v *violation, res *result, idx, from uint64) {
		f := t.found[v.Class]
		if f == nil {
			t.found[v.Class] = &found{v: v, res: res, index: idx, from: from, count: 1}
			return
		}
		f.count++
		if idx < f.index {
			f.v, f.res, f.index, f.from = v, res, idx, from
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < jobs; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				j, ok := next()
				if !ok {
					return
				}
				w, err := startWorker(b.bin, b.dir)
				if err != nil {
					mu.Lock()
					t.errs = append(t.errs, err.Error())
					mu.Unlock()
					return
				}
				rep := &batchReply{}
				crash, err := w.call(&request{Cmd: "batch", Prop: cfg.id, Tier: tier, Seed: seed, From: j.from, To: j.to}, rep, 400*time.Second)
				last := w.lastIndex()
				w.stop()
				mu.Lock()
				switch {
				case err != nil:
					t.errs = append(t.errs, err.Error())
				case crash != nil:
					crashes++
					note(crash, nil, last, j.from)
					// the runs before the crash are repeated, the rest continues
					if crashes <= maxCrash {
						if last > j.from {
							queue = append(queue, job{j.from, last})
						}
						if last+1 < j.to {
							queue = append(queue, job{last + 1, j.to})
						}
					}
				case rep.Harness != "":
					t.errs = append(t.errs, rep.Harness)
				default:
					t.Runs += rep.Runs
					t.NonTriv += rep.NonTriv
					for k, v := range rep.Stats {
						t.Stats[k] += v
					}
					t.Steps += rep.Steps
					t.Picks += rep.Picks
					t.Preempts += rep.Preempts
					t.Switches += rep.Switches
					t.SimNanos += rep.SimNanos
					t.MaxSteps = max(t.MaxSteps, rep.MaxSteps)
					t.MaxHeap = max(t.MaxHeap, rep.MaxHeap)
					for _, h := range rep.Hashes {
						t.hashes[h] = struct{}{}
					}
					for _, h := range rep.Scheds {
						t.scheds[h] = struct{}{}
					}
					if len(rep.Viols) > 0 && len(t.found) == 0 {
						// there is something to report: do not search for ever
						if s := time.Now().Add(150 * time.Second); s.Before(stopAt) {
							stopAt = s
						}
					}
					for _, r := range rep.Viols {
						note(r.Viol, r, r.Index, j.from)
						if strings.HasPrefix(r.Viol.Class, "hang") {
							hangs++
						}
					}
					if hangs >= 8 {
						queue = nil
					}
					for c, n := range rep.NViol {
						t.found[c].count = max(t.found[c].count, n)
					}
					t.digest[j.from] = rep.Digest
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return t
}

func check(root, prop, tier string, seed, runsOverride uint64, jobs int) int {
	t0 := time.Now()
	cfg := configs[prop]
	if cfg == nil {
		fatal("no configuration for property %q", prop)
	}
	b := build(root, cfg.race)
	runs, batch := cfg.quick, cfg.batch
	limit := 420 * time.Second
	if tier == "thorough" {
		runs = cfg.thorough
		limit = 4 * time.Hour
	}
	if runsOverride != 0 {
		runs = runsOverride
	}
	tSearch := time.Now()
	t := search(b, cfg, tier, seed, 0, runs, batch, jobs, t0.Add(limit), 12)
	searchTook := time.Since(tSearch)
	if len(t.errs) > 0 && len(t.found) == 0 {
		fatal("%s", t.errs[0])
	}

	// determinism audit: repeat a few batches in other processes, one at a time
	audited, diverged := 0, 0
	if len(t.found) == 0 {
		for _, start := range []uint64{0, runs / batch / 2 * batch} {
			d, ok := t.digest[start]
			if !ok {
				continue
			}
			t2 := search(b, cfg, tier, seed, start, min(start+batch, runs), batch, 1, time.Now().Add(120*time.Second), 1)
			d2, ok := t2.digest[start]
			if !ok {
				continue
			}
			audited += int(t2.Runs)
			if d != d2 {
				diverged++
			}
		}
		if diverged > 0 {
			fmt.Fprintf(os.Stderr, "simctl: warning: %d audited batches did not repeat exactly\n", diverged)
		}
	}

	// samples
	var samples []sample
	if w, err := startWorker(b.bin, b.dir); err == nil {
		rep := &batchReply{}
		crash, err := w.call(&request{Cmd: "sample", Prop: prop, Tier: tier, Seed: seed, From: 0, To: 4}, rep, 120*time.Second)
		if crash == nil && err == nil {
			samples = rep.Samples
		}
		w.stop()
	}

	kn := readKnown(root, prop)
	var classes []string
	for c := range t.found {
		classes = append(classes, c)
	}
	sort.Slice(classes, func(i, j int) bool { return t.found[classes[i]].index < t.found[classes[j]].index })
	seen := map[string]bool{}
	var fresh []string
	for _, c := range classes {
		isKnown := false
		for _, k := range kn {
			if k.class == c {
				isKnown = true
				seen[c] = true
			}
		}
		if !isKnown {
			fresh = append(fresh, c)
		}
	}
	for _, k := range kn {
		state := "not reached in this run"
		if seen[k.class] {
			state = "reproduced"
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s] (%s)\n", prop, k.text, k.class, state)
	}
	var viols []map[string]any
	code := 0
	minDeadline := time.Now().Add(90 * time.Second)
	for i, c := range fresh {
		f := t.found[c]
		if i >= 3 {
			fmt.Printf("also: %s (run %d): %s\n", c, f.index, firstLines(f.v.Msg, 1))
			viols = append(viols, map[string]any{"class": c, "message": firstLines(f.v.Msg, 3), "run": f.index})
			continue
		}
		path, msg := report(root, b, cfg, tier, seed, f, minDeadline)
		fmt.Printf("%s: %s\n", c, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		viols = append(viols, map[string]any{"class": c, "message": msg, "run": f.index, "seed": runSeed(seed, prop, f.index), "replay": path})
		code = 1
	}

	wall := time.Since(t0).Seconds()
	cov := map[string]any{
		"evaluations":            t.Runs,
		"distinct_nontrivial":    len(t.hashes),
		"rule":                   cfg.rule,
		"samples":                samples,
		"runs_per_hour":          int64(float64(t.Runs) / searchTook.Seconds() * 3600),
		"simulated_seconds":      float64(t.SimNanos) / 1e9,
		"yield_points_passed":    t.Steps,
		"scheduling_decisions":   t.Picks,
		"preemptions_injected":   t.Preempts,
		"context_switches":       t.Switches,
		"distinct_schedules":     len(t.scheds),
		"fault_and_probe_counts": t.Stats,
		"max_steps_in_one_run":   t.MaxSteps,
		"max_heap_in_one_run":    t.MaxHeap,
		"worker_processes":       jobs,
		"build_seconds":          b.took.Seconds(),
		"instrumented_files":     b.info.Files,
		"yield_points_inserted":  b.info.Points,
		"race_detector":          cfg.race,
		"real_components":        cfg.real,
		"stub_components":        cfg.stub,
		"determinism_audit":      map[string]any{"runs_repeated_in_another_process": audited, "batches_diverged": diverged},
		"search_seconds":         searchTook.Seconds(),
		"runs_planned":           runs,
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(seed), "level": cfg.level,
		"coverage": cov, "wall_s": wall,
		"assumptions": cfg.assume,
		"violations":  viols,
	}
	if viols == nil {
		ev["violations"] = []any{}
	}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(data, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial), %d schedules, %d preemptions, %d violations, %.1fs (build %.1fs)\n",
		prop, tier, t.Runs, len(t.hashes), len(t.scheds), t.Preempts, len(fresh), wall, b.took.Seconds())
	if t.Runs == 0 {
		fatal("no run completed")
	}
	return code
}

// report minimises a failure and writes its replay file.
func report(root string, b *built, cfg *propCfg, tier string, seed uint64, f *found, deadline time.Time) (string, string) {
	sd := runSeed(seed, cfg.id, f.index)
	orig := &spec{Prop: cfg.id, Tier: tier, Index: f.index, Seed: sd, MapSeed: mix(sd ^ 0x3333)}
	rf := &replayFile{Property: cfg.id, VerifSeed: seed, Violation: f.v, Original: orig,
		HowTo: "bash /verif/replay.sh <this file>   (exit 1 and the same VIOLATION class when it reproduces)"}
	t := &tester{bin: b.bin, dir: b.dir, deadline: deadline}
	defer t.close()
	msg := firstLines(f.v.Msg, 8)

	res, v, err := t.exec(orig, true)
	if err == nil && v != nil && v.Class == f.v.Class {
		// reproducible from its seed alone in a fresh process
		sp := clone(orig)
		if res != nil && !res.Lost {
			sp.Choices, sp.Replay = res.Choices, true
			sp.Sched, sp.SchedSet = res.Sched, true
			sp = t.minimize(sp, f.v.Class)
		} else if res == nil {
			// the process died: rebuild the choice list without executing faults
			sp = minimizeCrash(t, orig, f.v.Class)
		}
		sp.Verbose = true
		res2, v2, err2 := t.exec(sp, true)
		if err2 == nil && v2 != nil && v2.Class == f.v.Class {
			rf.Spec = sp
			rf.Violation = v2
			msg = firstLines(v2.Msg, 8)
			if res2 != nil {
				rf.Trace = res2.Log
			}
		} else {
			rf.Spec = orig
		}
	} else {
		// depends on earlier runs in the same process: replay the batch prefix
		start := f.index
		for back := uint64(1); ; back *= 2 {
			if f.index >= f.from+back {
				start = f.index - back
			} else {
				start = f.from
			}
			t2 := search(b, cfg, tier, seed, start, f.index+1, f.index+1-start, 1, time.Now().Add(120*time.Second), 0)
			if g := t2.found[f.v.Class]; g != nil && g.index == f.index {
				break
			}
			if start == f.from {
				break
			}
		}
		rf.Batch = &request{Cmd: "batch", Prop: cfg.id, Tier: tier, Seed: seed, From: start, To: f.index + 1}
	}
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x-%d.json", cfg.id, mix(hashString(f.v.Class)), f.index))
	data, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, append(data, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	return path, msg
}

func hashString(s string) uint64 {
	h := uint64(0)
	for _, c := range s {
		h = mix(h ^ uint64(c))
	}
	return h
}

// minimizeCrash handles failures that kill the process (data races, fatal
// runtime errors): the choice list cannot be reported by the dying process,
// so only the schedule is reduced, by lowering the preemption rate.
func minimizeCrash(t *tester, orig *spec, class string) *spec {
	c := clone(orig)
	c.MapFixed = true
	best := clone(orig)
	if _, ok := t.fails(c, class); ok {
		best = c
	}
	c = clone(best)
	c.SchedSet = true // no preemption at all, first runnable goroutine first
	if _, ok := t.fails(c, class); ok {
		best = c
	}
	return best
}

func replay(root string, files []string) int {
	if len(files) != 1 {
		fatal("usage: simctl replay FILE")
	}
	data, err := os.ReadFile(files[0])
	if err != nil {
		fatal("%v", err)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(data, rf); err != nil {
		fatal("%v", err)
	}
	cfg := configs[rf.Property]
	if cfg == nil {
		fatal("unknown property %q", rf.Property)
	}
	b := build(root, cfg.race)
	var v *violation
	var log []string
	if rf.Spec != nil {
		t := &tester{bin: b.bin, dir: b.dir}
		defer t.close()
		rf.Spec.Verbose = true
		res, v1, err := t.exec(rf.Spec, true)
		if err != nil {
			fatal("%v", err)
		}
		v = v1
		if res != nil {
			log = res.Log
		}
	} else {
		t := search(b, cfg, rf.Batch.Tier, rf.Batch.Seed, rf.Batch.From, rf.Batch.To, rf.Batch.To-rf.Batch.From, 1, time.Now().Add(600*time.Second), 0)
		if len(t.errs) > 0 {
			fatal("%s", t.errs[0])
		}
		if f := t.found[rf.Violation.Class]; f != nil {
			v = f.v
		}
	}
	for _, l := range log {
		fmt.Println("  " + l)
	}
	if v == nil {
		fmt.Println("replay: no violation")
		return 0
	}
	fmt.Printf("replay: %s: %s\n", v.Class, firstLines(v.Msg, 20))
	if v.Class != rf.Violation.Class {
		fmt.Printf("replay: different class than recorded (%s)\n", rf.Violation.Class)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, files[0])
	return 1
}

// selftest proves determinism: the same runs, split differently over different
// numbers of processes, must give identical event logs.
func selftest(root, prop, tier string, seed, from, runs uint64, jobs int) int {
	cfg := configs[prop]
	if cfg == nil {
		fatal("unknown property")
	}
	b := build(root, cfg.race)
	if runs == 0 {
		runs = 2000
	}
	bad := 0
	ref := map[uint64]uint64{}
	for pass, j := range []int{jobs, 1, 3} {
		if pass == 1 && runs > 4000 {
			continue
		}
		t := search(b, cfg, tier, seed, from, from+runs, 50, j, time.Now().Add(time.Hour), 5)
		if len(t.errs) > 0 {
			fatal("%s", t.errs[0])
		}
		for k, d := range t.digest {
			if r, ok := ref[k]; ok && r != d {
				bad++
				fmt.Printf("batch %d differs\n", k)
			}
			ref[k] = d
		}
	}
	fmt.Printf("selftest %s: %d batches, %d differ\n", prop, len(ref), bad)
	if bad > 0 {
		return 1
	}
	return 0
}
