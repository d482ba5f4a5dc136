package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type sched struct {
	Pre  []uint64 `json:"preempt,omitempty"`
	Pick []uint64 `json:"pick,omitempty"`
}

type spec struct {
	Prop     string   `json:"property"`
	Tier     string   `json:"tier"`
	Index    uint64   `json:"index"`
	Seed     uint64   `json:"seed"`
	Choices  []uint64 `json:"choices"`
	Replay   bool     `json:"replay"`
	SchedSet bool     `json:"sched_set"`
	Sched    sched    `json:"sched"`
	MapFixed bool     `json:"map_fixed"`
	MapSeed  uint64   `json:"map_seed"`
	Verbose  bool     `json:"verbose"`
}

type result struct {
	Index      uint64           `json:"index"`
	Seed       uint64           `json:"seed"`
	Viol       *violation       `json:"viol,omitempty"`
	Choices    []uint64         `json:"choices,omitempty"`
	Sched      sched            `json:"sched"`
	Lost       bool             `json:"lost,omitempty"`
	MapFixed   bool             `json:"map_fixed"`
	MapSeed    uint64           `json:"map_seed"`
	Steps      uint64           `json:"steps"`
	LogHash    uint64           `json:"log_hash"`
	SchedHash  uint64           `json:"sched_hash"`
	Stats      map[string]int64 `json:"stats,omitempty"`
	Log        []string         `json:"log,omitempty"`
	NonTrivial bool             `json:"nontrivial"`
	Harness    string           `json:"harness,omitempty"`
}

type sample struct {
	Index uint64   `json:"index"`
	Seed  uint64   `json:"seed"`
	Log   []string `json:"log"`
}

type batchReply struct {
	Runs     int64            `json:"runs"`
	NonTriv  int64            `json:"nontriv"`
	Stats    map[string]int64 `json:"stats"`
	Steps    uint64           `json:"steps"`
	Picks    uint64           `json:"picks"`
	Preempts uint64           `json:"preempts"`
	Switches uint64           `json:"switches"`
	SimNanos int64            `json:"sim_nanos"`
	Hashes   []uint64         `json:"hashes"`
	Scheds   []uint64         `json:"scheds"`
	Digest   uint64           `json:"digest"`
	MaxSteps uint64           `json:"max_steps"`
	MaxHeap  uint64           `json:"max_heap"`
	Viols    []*result        `json:"viols"`
	NViol    map[string]int64 `json:"nviol"`
	Diverged []uint64         `json:"diverged"`
	Harness  string           `json:"harness"`
	Samples  []sample         `json:"samples"`
}

type request struct {
	Cmd   string `json:"cmd"`
	Prop  string `json:"prop"`
	Tier  string `json:"tier"`
	Seed  uint64 `json:"seed"`
	From  uint64 `json:"from"`
	To    uint64 `json:"to"`
	Twice bool   `json:"twice"`
	Spec  *spec  `json:"spec,omitempty"`
}

// worker is one worker process.
type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tailBuffer
	marker string
	killed atomic.Bool
}

// tailBuffer keeps the beginning of what a process wrote to stderr.
type tailBuffer struct {
	buf bytes.Buffer
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	if room := 1<<20 - t.buf.Len(); room > 0 {
		t.buf.Write(p[:min(len(p), room)])
	}
	return len(p), nil
}

var procSeq atomic.Int64

func startWorker(bin, dir string) (*worker, error) {
	w := &worker{stderr: &tailBuffer{}}
	w.marker = filepath.Join(dir, fmt.Sprintf("mark%d", procSeq.Add(1)))
	w.cmd = exec.Command(bin, w.marker)
	w.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=single", "GOMAXPROCS=1", "GODEBUG=", "TZ=UTC")
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w.cmd.Stderr = w.stderr
	in, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.in = in
	w.out = bufio.NewReaderSize(out, 1<<20)
	return w, w.cmd.Start()
}

func (w *worker) lastIndex() uint64 {
	b, err := os.ReadFile(w.marker)
	if err != nil || len(b) < 8 {
		return 0
	}
	return binary.LittleEndian.Uint64(b)
}

// call sends one request.  If the process dies, crash describes how.
func (w *worker) call(rq *request, reply any, timeout time.Duration) (crash *violation, err error) {
	data, err := json.Marshal(rq)
	if err != nil {
		return nil, err
	}
	timer := time.AfterFunc(timeout, func() {
		w.killed.Store(true)
		w.cmd.Process.Kill()
	})
	defer timer.Stop()
	_, werr := w.in.Write(append(data, '\n'))
	if werr == nil {
		dec := json.NewDecoder(w.out)
		if err := dec.Decode(reply); err == nil {
			// nothing can follow before the next request
			return nil, nil
		}
	}
	w.in.Close()
	werr = w.cmd.Wait()
	if w.killed.Load() {
		return nil, fmt.Errorf("worker exceeded its wall-clock limit of %v in run %d", timeout, w.lastIndex())
	}
	stderr := w.stderr.buf.String()
	return classifyCrash(werr, stderr)
}

func (w *worker) stop() {
	if w == nil {
		return
	}
	w.in.Close()
	if w.cmd.ProcessState == nil {
		done := make(chan bool)
		go func() { w.cmd.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			w.cmd.Process.Kill()
			<-done
		}
	}
	os.Remove(w.marker)
}

var funcLine = regexp.MustCompile(`(?m)^\s*((?:seehuhn\.de/go|verif/sim)/[^\s]+?)\(`)

var funcOnly = regexp.MustCompile(`^\s*([^\s(][^\s]*?)\(`)

func cleanFunc(s string) string {
	s = strings.TrimSpace(s)
	for _, suf := range []string{"[...]"} {
		s = strings.ReplaceAll(s, suf, "")
	}
	return s
}

// classifyCrash turns the death of a worker process into a violation.
func classifyCrash(werr error, stderr string) (*violation, error) {
	code := -1
	if ee, ok := werr.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	head := stderr
	if len(head) > 6000 {
		head = head[:6000]
	}
	if i := strings.Index(stderr, "WARNING: DATA RACE"); i >= 0 && code == 66 {
		return classifyRace(stderr[i:])
	}
	kind := ""
	switch {
	case strings.Contains(stderr, "panic: ") && code == 2:
		kind = "panic"
	case strings.Contains(stderr, "fatal error: stack overflow") || strings.Contains(stderr, "goroutine stack exceeds"):
		kind = "stack-overflow"
	case strings.Contains(stderr, "fatal error: concurrent map"):
		kind = "concurrent-map"
	case strings.Contains(stderr, "fatal error: out of memory") || strings.Contains(stderr, "cannot allocate memory"):
		kind = "out-of-memory"
	case strings.Contains(stderr, "fatal error: all goroutines are asleep"):
		kind = "deadlock"
	case strings.Contains(stderr, "unexpected signal") || strings.Contains(stderr, "SIGSEGV"):
		kind = "signal"
	default:
		return nil, fmt.Errorf("worker died (%v): %s", werr, head)
	}
	i := strings.Index(stderr, "goroutine ")
	site := ""
	if i >= 0 {
		for _, line := range strings.Split(stderr[i:], "\n") {
			if m := funcOnly.FindStringSubmatch(line); m != nil && !strings.HasPrefix(line, "\t") {
				f := line[:strings.LastIndex(line, "(")]
				f = cleanFunc(f)
				if strings.HasPrefix(f, "seehuhn.de/go/") {
					site = f
					break
				}
			}
		}
	}
	if site == "" {
		return nil, fmt.Errorf("worker died outside the code under test (%v): %s", werr, head)
	}
	return &violation{Class: "crash/" + kind + "/" + site, Msg: "process died: " + firstLines(head, 12)}, nil
}

func classifyRace(s string) (*violation, error) {
	// frames are "  pkg.func()" followed by "      file:line +0x..."
	var sites []string
	for _, sec := range strings.Split(s, "\n\n") {
		lines := strings.Split(sec, "\n")
		for k, l := range lines {
			if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous ") || strings.HasPrefix(l, "WARNING") && false {
				kind := "read"
				if strings.Contains(strings.ToLower(l), "write") {
					kind = "write"
				}
				site := ""
				for _, f := range lines[k+1:] {
					f = strings.TrimSpace(f)
					if strings.HasPrefix(f, "seehuhn.de/go/") {
						if j := strings.LastIndex(f, "("); j > 0 {
							f = f[:j]
						}
						site = f
						break
					}
					if strings.HasPrefix(f, "verif/") {
						break
					}
				}
				sites = append(sites, kind+" "+site)
			}
		}
	}
	n := 0
	for _, x := range sites {
		if strings.Contains(x, "seehuhn.de") {
			n++
		}
	}
	if n == 0 {
		return nil, fmt.Errorf("data race inside the harness: %s", firstLines(s, 40))
	}
	if len(sites) == 2 && sites[1] < sites[0] {
		sites[0], sites[1] = sites[1], sites[0]
	}
	return &violation{Class: "race/" + strings.Join(sites, "/"), Msg: firstLines(s, 30)}, nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
