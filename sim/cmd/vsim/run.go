package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	rt "vsim/simrt"
)

// Harness trouble (never a violation) is carried by this panic value.
type harnessError struct{ msg string }

func fail(f string, a ...interface{}) { panic(harnessError{fmt.Sprintf(f, a...)}) }

type Tally struct {
	mu         sync.Mutex
	Runs       int64
	Hashes     map[string]bool
	FaultFired map[string]int64
	Policies   map[string]int64
	VirtNS     int64
	Switches   int64
	Preempts   int64
	Ticks      int64
	ChanOps    int64
	FileOps    int64
	MaxG       int
	Ends       map[string]int64
	Probes     map[string]int64
	SelChoice  int64
	PoolHits   int64
	MapOrders  int64
	Wall       time.Duration
}

func newTally() *Tally {
	return &Tally{Hashes: map[string]bool{}, FaultFired: map[string]int64{}, Policies: map[string]int64{}, Ends: map[string]int64{}, Probes: map[string]int64{}}
}

func (t *Tally) Probe(name string) {
	t.mu.Lock()
	t.Probes[name]++
	t.mu.Unlock()
}

// Exec runs simulated executions.
type Exec struct {
	prog  string
	tmp   string
	tally *Tally
	n     int64
	race  bool
	// deadline after which no new case is started
	deadline time.Time
}

// Run executes one simulated program run.
func (e *Exec) Run(c *rt.Config) *rt.Result {
	id := atomic.AddInt64(&e.n, 1)
	cp := filepath.Join(e.tmp, fmt.Sprintf("c%d.json", id))
	rp := filepath.Join(e.tmp, fmt.Sprintf("r%d.json", id))
	b, err := json.Marshal(c)
	if err != nil {
		fail("marshal: %v", err)
	}
	if err := os.WriteFile(cp, b, 0666); err != nil {
		fail("%v", err)
	}
	defer os.Remove(cp)
	defer os.Remove(rp)
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, e.prog)
	env := []string{"VERIF_SIM_CONFIG=" + cp, "VERIF_SIM_RESULT=" + rp, "GOTRACEBACK=single", "GOGC=400", "HOME=" + e.tmp, "PATH=/usr/bin:/bin"}
	if e.race {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0 log_path=stderr")
	}
	cmd.Env = env
	cmd.Dir = e.tmp
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err = cmd.Run()
	if ctx.Err() != nil {
		fail("simulated run exceeded the wall clock limit (args %v seed %d)", c.Args, c.Seed)
	}
	rb, rerr := os.ReadFile(rp)
	res := &rt.Result{}
	if rerr != nil || err != nil {
		s := eb.String()
		if i := strings.Index(s, "fatal error:"); i >= 0 && (!strings.Contains(s, "out of memory") || hugeAlloc.MatchString(s)) {
			res.How, res.Exit, res.Msg = "fatal", 2, firstLines(s[i:], 30)
		} else {
			fail("simulated run gave no result: %v: %s (args %v seed %d)", err, firstLines(s, 20), c.Args, c.Seed)
		}
	} else if err := json.Unmarshal(rb, res); err != nil {
		fail("bad result: %v", err)
	}
	if e.race {
		res.Stderr2 = eb.String()
	}
	t := e.tally
	t.mu.Lock()
	t.Runs++
	t.Hashes[res.Hash] = true
	t.Policies[res.Policy]++
	t.Ends[res.How]++
	t.VirtNS += res.VirtNS
	t.Switches += res.Stats.Switches
	t.Preempts += res.Stats.Preemptions
	t.Ticks += res.Stats.Ticks
	t.ChanOps += res.Stats.ChanOps
	t.FileOps += int64(res.Stats.FileOps)
	t.SelChoice += res.Stats.SelectChoices
	t.PoolHits += res.Stats.PoolHits
	t.MapOrders += res.Stats.MapOrders
	if res.Stats.Goroutines > t.MaxG {
		t.MaxG = res.Stats.Goroutines
	}
	for _, f := range res.Fired {
		op := "disk"
		if f.Fault >= 0 && f.Fault < len(c.Faults) {
			op = c.Faults[f.Fault].Op
		}
		t.FaultFired[op+":"+f.Kind]++
	}
	t.mu.Unlock()
	return res
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func file(res *rt.Result, path string) []byte {
	for _, f := range res.Files {
		if f.Path == path && f.Kind == "" {
			return f.Data
		}
	}
	return nil
}

func hasFile(res *rt.Result, path string) bool {
	for _, f := range res.Files {
		if f.Path == path {
			return true
		}
	}
	return false
}

// ok reports whether the run claims success.
func ok(res *rt.Result) bool { return res.How == "return" && res.Exit == 0 }

func claimsSuccess(res *rt.Result) bool {
	return ok(res) && strings.Contains(res.Stdout, "successfully written")
}

// hugeAlloc matches the report of the Go runtime on a single allocation of
// 4 GB or more: no level of this program needs that, and it fails anywhere.
var hugeAlloc = regexp.MustCompile(`runtime\.sys(Map|Reserve|Alloc)(OS)?\(0x[0-9a-f]+, 0x[0-9a-f]{9,}`)
