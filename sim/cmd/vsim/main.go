// vsim drives the deterministic simulation of the program in /repo: it builds
// the instrumented program, searches schedules and faults from one seed, checks
// the properties, minimises what it finds and writes evidence.
//
//	vsim check -prop C01 -tier quick
//	vsim replay FILE
//	vsim selftest -n 40
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	rt "vsim/simrt"
)

type Prop struct {
	ID       string
	Gen      func(e *Exec, r *Rng, i int) []*Case
	Check    func(e *Exec, c *Case) *Violation
	Quick    int // seeds
	Thorough int
	Race     bool
	Level    string
	Rule     string
	Assume   []string
	MinRuns  int // runs[0..MinRuns-1] are always needed when minimising
}

// check judges an expanded case, so that a replay file gives the same verdict.
func (p *Prop) check(e *Exec, c *Case) *Violation { return p.Check(e, c.full()) }

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

var (
	verif = "/verif"
	repo  = "/repo"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check|replay|selftest|build ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	seed := fs.Int64("seed", -1, "")
	n := fs.Int("n", 0, "")
	secs := fs.Int("secs", 0, "")
	fs.StringVar(&repo, "repo", "/repo", "")
	fs.StringVar(&verif, "verif", "/verif", "")
	from := fs.Int("from", 0, "")
	keep := fs.Bool("keep", false, "continue after violations (development)")
	fs.Parse(os.Args[2:])
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *seed < 0 {
		s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil {
			s = 1
		}
		*seed = s
	}
	code := 2
	func() {
		defer func() {
			if r := recover(); r != nil {
				if h, ok := r.(harnessError); ok {
					fmt.Fprintln(os.Stderr, "vsim: check error:", h.msg)
					code = 3
					return
				}
				panic(r)
			}
		}()
		switch cmd {
		case "check":
			code = runCheck(*prop, *tier, *seed, *n, *secs, *from, *keep)
		case "replay":
			code = runReplay(fs.Args())
		case "selftest":
			code = runSelftest(*seed, *n)
		case "dump":
			dumpSelf(*seed, *n, fs.Arg(0), fs.Arg(1))
			code = 0
		case "build":
			tmp := scratch()
			fmt.Println(buildProg(tmp, false))
			code = 0
		default:
			fmt.Fprintln(os.Stderr, "unknown command", cmd)
		}
	}()
	os.Exit(code)
}

func scratch() string {
	base := os.Getenv("TMPDIR")
	if base == "" {
		base = "/tmp"
	}
	d, err := os.MkdirTemp(base, "vsim")
	if err != nil {
		fail("%v", err)
	}
	return d
}

func goEnv(tmp string) []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOCACHE", "CGO_ENABLED", "GOOS", "GOARCH", "GOEXPERIMENT", "GODEBUG":
			continue
		}
		env = append(env, kv)
	}
	gc := os.Getenv("VSIM_GOCACHE")
	if gc == "" {
		gc = filepath.Join(tmp, "gocache")
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOCACHE="+gc)
}

// buildProg instruments /repo's working tree and builds the simulated program.
func buildProg(tmp string, race bool) string {
	instr := os.Getenv("VSIM_INSTR")
	if instr == "" {
		fail("VSIM_INSTR not set (use bin/check)")
	}
	src := filepath.Join(tmp, "src")
	os.RemoveAll(src)
	run := func(dir string, env []string, name string, args ...string) {
		c := exec.Command(name, args...)
		c.Dir = dir
		c.Env = env
		out, err := c.CombinedOutput()
		if err != nil {
			fail("%s %s: %v\n%s", name, strings.Join(args, " "), err, firstLines(string(out), 40))
		}
	}
	env := goEnv(tmp)
	yield := "stmt"
	run("/", env, instr, "-repo", repo, "-out", src, "-simrt", filepath.Join(verif, "sim", "simrt"), "-yield", yield)
	prog := filepath.Join(tmp, "prog")
	if race {
		prog += ".race"
		mod := moduleOf(src)
		run(src, append(env, "CGO_ENABLED=1"), "go", "build", "-race", "-gcflags="+mod+"/verifsimrt=-race=false -l", "-o", prog, ".")
	} else {
		run(src, append(env, "CGO_ENABLED=0"), "go", "build", "-o", prog, ".")
	}
	return prog
}

func moduleOf(src string) string {
	b, _ := os.ReadFile(filepath.Join(src, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			return strings.Trim(f[1], `"`)
		}
	}
	fail("no module line")
	return ""
}

// ---------------------------------------------------------------- check

type found struct {
	idx int
	c   *Case
	v   *Violation
}

func runCheck(id, tier string, seed int64, n, secs, from int, keep bool) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fail("unknown property %q", id)
	}
	tmp := scratch()
	defer os.RemoveAll(tmp)
	e := &Exec{tmp: tmp, tally: newTally(), race: p.Race}
	e.prog = buildProg(tmp, p.Race)
	buildS := time.Since(start)
	fmt.Printf("vsim: property=%s tier=%s VERIF_SEED=%d build=%.1fs\n", id, tier, seed, buildS.Seconds())
	count := p.Quick
	limit := 90 * time.Second
	if tier == "thorough" {
		count = p.Thorough
		limit = 700 * time.Second
	}
	if n > 0 {
		count = n
	}
	if secs > 0 {
		limit = time.Duration(secs) * time.Second
	}
	e.deadline = time.Now().Add(limit)
	known := loadKnown(id)
	knownHit := map[string]string{}
	simStart := time.Now()

	var mu sync.Mutex
	var hits []found
	var herr *harnessError
	next := from
	cases, seedsDone := 0, 0
	sigs := map[string]bool{}
	var samples []interface{}
	stopAt := 1 << 60
	workers := runtime.NumCPU()
	if w := os.Getenv("VSIM_WORKERS"); w != "" {
		workers, _ = strconv.Atoi(w)
	}
	if workers < 1 {
		workers = 1
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				stop := i >= from+count || i > stopAt || herr != nil || time.Now().After(e.deadline)
				mu.Unlock()
				if stop {
					return
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if h, ok := r.(harnessError); ok {
								mu.Lock()
								h.msg = fmt.Sprintf("seed index %d: %s", i, h.msg)
								if herr == nil {
									herr = &h
								}
								mu.Unlock()
								return
							}
							panic(r)
						}
					}()
					if os.Getenv("VSIM_SLOW") != "" {
						t0 := time.Now()
						defer func() {
							if d := time.Since(t0); d > 8*time.Second {
								fmt.Printf("slow: seed index %d took %.1fs\n", i, d.Seconds())
							}
						}()
					}
					r := NewRng(uint64(seed)*1000003+uint64(i), id)
					for _, c := range p.Gen(e, r, i) {
						c.Prop = id
						if c.Seed == 0 {
							c.Seed = r.Next() >> 1
						}
						v := p.check(e, c)
						mu.Lock()
						cases++
						if len(samples) < 3 && i < from+8 {
							samples = append(samples, sampleOf(c, v))
						}
						sigs[caseSig(c)] = true
						mu.Unlock()
						if v != nil {
							if k := matchKnown(known, c, v); k != "" {
								mu.Lock()
								knownHit[k] = v.Msg
								mu.Unlock()
								continue
							}
							mu.Lock()
							hits = append(hits, found{i, c, v})
							if !keep && i < stopAt {
								stopAt = i
							}
							if keep {
								fmt.Printf("hit index=%d class=%s %s\n  case: %s\n", i, v.Class, v.Msg, caseLine(c))
							}
							mu.Unlock()
							return
						}
					}
					mu.Lock()
					seedsDone++
					mu.Unlock()
				}()
			}
		}()
	}
	wg.Wait()
	if herr != nil && len(hits) == 0 {
		panic(*herr)
	}
	for _, k := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	simWall := time.Since(simStart)
	code := 0
	nviol := len(hits)
	if len(hits) > 0 {
		sort.Slice(hits, func(a, b int) bool { return hits[a].idx < hits[b].idx })
		h := hits[0]
		fmt.Printf("vsim: violation at seed index %d: %s: %s\n", h.idx, h.v.Class, h.v.Msg)
		if os.Getenv("VSIM_SPEC") != "" {
			b, _ := json.Marshal(h.c.Wads)
			fmt.Println(string(b))
		}
		c, v := minimise(e, p, h.c, h.v)
		path := writeReplay(id, seed, h.idx, c, v)
		fmt.Printf("vsim: minimised: %s\n%s\n", caseLine(c), v.Msg)
		// the replay file must reproduce; the case as found is the fallback
		if again := p.check(e, loadReplayCase(path)); again == nil || again.Class != v.Class {
			fmt.Printf("vsim: the minimised case does not reproduce %s (got %v): keeping the case as found\n", v.Class, again)
			path = writeReplay(id, seed, h.idx, h.c, h.v)
			if again := p.check(e, loadReplayCase(path)); again == nil {
				fmt.Printf("vsim: WARNING: the violation depends on something the replay file does not hold\n")
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	}
	writeEvidence(p, tier, seed, e, cases, seedsDone, len(sigs), samples, simWall, time.Since(start), nviol, knownHit, buildS)
	t := e.tally
	fmt.Printf("vsim: property=%s seeds=%d cases=%d runs=%d distinct_interleavings=%d faults=%v ends=%v sim=%.1fs wall=%.1fs violations=%d\n", id, seedsDone, cases, t.Runs, len(t.Hashes), t.FaultFired, t.Ends, simWall.Seconds(), time.Since(start).Seconds(), nviol)
	return code
}

func caseSig(c *Case) string {
	b, _ := json.Marshal(c)
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return strconv.FormatUint(h, 16)
}

func caseLine(c *Case) string {
	var s []string
	for _, r := range c.Runs {
		f := ""
		for _, x := range r.Faults {
			f += fmt.Sprintf(" !%s(%s %s #%d part=%.2f stay=%v when=%s)", x.Kind, x.Op, x.Path, x.Nth, x.Part, x.Stay, x.When)
		}
		tr := ""
		if r.Trace != nil {
			tr = fmt.Sprintf(" trace{%d preempts, %d choice runs}", len(r.Trace.Preempts), len(strings.Fields(r.Trace.Choices)))
		}
		s = append(s, fmt.Sprintf("[%s: cpus=%d seed=%d policy=%s %s%s%s]", r.Label, r.CPUs, r.Seed, r.Policy, strings.Join(r.Args, " "), f, tr))
	}
	return strings.Join(s, " ") + " " + c.Note
}

func sampleOf(c *Case, v *Violation) interface{} {
	m := map[string]interface{}{"runs": caseLine(c), "seed": c.Seed}
	for k, w := range c.Wads {
		b, _ := json.Marshal(w)
		s := string(b)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		m["wad "+k] = s
	}
	if v == nil {
		m["outcome"] = "held"
	} else {
		m["outcome"] = v.Class
	}
	return m
}

// ---------------------------------------------------------------- replay files

type ReplayFile struct {
	Property  string `json:"property"`
	Class     string `json:"class"`
	Msg       string `json:"msg"`
	VerifSeed int64  `json:"verif_seed"`
	SeedIndex int    `json:"seed_index"`
	Case      *Case  `json:"case"`
}

func writeReplay(id string, seed int64, idx int, c *Case, v *Violation) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0777)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", id, seed, idx))
	full := c.full()
	b, err := json.MarshalIndent(ReplayFile{id, v.Class, v.Msg, seed, idx, full}, "", " ")
	if err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(path, b, 0666); err != nil {
		fail("%v", err)
	}
	return path
}

func loadReplay(path string) *ReplayFile {
	b, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fail("%v", err)
	}
	return rf
}

func loadReplayCase(path string) *Case { return loadReplay(path).Case }

func runReplay(args []string) int {
	if len(args) != 1 {
		fail("usage: vsim replay FILE")
	}
	rf := loadReplay(args[0])
	p := props[rf.Property]
	if p == nil {
		fail("unknown property %q", rf.Property)
	}
	tmp := scratch()
	defer os.RemoveAll(tmp)
	e := &Exec{tmp: tmp, tally: newTally(), race: p.Race}
	e.prog = buildProg(tmp, p.Race)
	v := p.check(e, rf.Case)
	fmt.Println(caseLine(rf.Case))
	if v == nil {
		fmt.Printf("vsim: replay of %s: property %s holds on this case\n", args[0], rf.Property)
		return 0
	}
	fmt.Printf("%s: %s\n", v.Class, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
	return 1
}

// ---------------------------------------------------------------- known findings

type knownFinding struct{ id, class, needle string }

// loadKnown reads known-findings.txt: lines
//
//	KNOWN property=<id> class=<class> match=<text> -- <description>
func loadKnown(id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN property="+id+" ") {
			continue
		}
		k := knownFinding{}
		head, desc, _ := strings.Cut(l, " -- ")
		k.id = desc
		if i := strings.Index(head, " class="); i > 0 {
			k.class = strings.Fields(head[i+7:])[0]
		}
		if i := strings.Index(head, " match="); i > 0 {
			k.needle = head[i+7:]
		}
		if k.class == "" || k.needle == "" {
			fail("known-findings.txt: bad line %q", l)
		}
		out = append(out, k)
	}
	return out
}

func matchKnown(ks []knownFinding, c *Case, v *Violation) string {
	for _, k := range ks {
		if k.class == v.Class && strings.Contains(v.Msg, k.needle) {
			return k.id
		}
	}
	return ""
}

// ---------------------------------------------------------------- evidence

func writeEvidence(p *Prop, tier string, seed int64, e *Exec, cases, seeds, distinct int, samples []interface{}, sim, wall time.Duration, nviol int, known map[string]string, build time.Duration) {
	t := e.tally
	hrs := sim.Hours()
	if hrs <= 0 {
		hrs = 1e-9
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]interface{}{
		"evaluations":                  t.Runs,
		"distinct_nontrivial":          len(t.Hashes),
		"rule":                         p.Rule + " A run counts as distinct when its sequence of task switches and select choices (hashed) differs from every other run's.",
		"samples":                      samples,
		"seeds":                        seeds,
		"cases":                        cases,
		"distinct_cases":               distinct,
		"runs_per_hour":                int64(float64(t.Runs) / hrs),
		"seeds_per_hour":               int64(float64(seeds) / hrs),
		"simulated_seconds":            float64(t.VirtNS) / 1e9,
		"faults_fired":                 t.FaultFired,
		"interleaving_measure":         "FNV-64 hash over the sequence of task switches and select choices",
		"policies":                     t.Policies,
		"run_ends":                     t.Ends,
		"task_switches":                t.Switches,
		"preemptions_in_straight_code": t.Preempts,
		"statements_executed":          t.Ticks,
		"channel_operations":           t.ChanOps,
		"file_operations":              t.FileOps,
		"select_choices":               t.SelChoice,
		"pool_hits":                    t.PoolHits,
		"map_iteration_orders":         t.MapOrders,
		"max_tasks_in_a_run":           t.MaxG,
		"probes":                       t.Probes,
		"real_components":              "all program code in /repo (instrumented from its working tree), Go standard library (encoding/binary, bytes, compress/zlib, fmt, log, sort)",
		"stubbed_components":           "goroutine scheduler, channels, select, reflect.Select, sync.Mutex, sync.Pool, context, time, os files, path/filepath.Abs, runtime.NumCPU, map iteration order, CPU profiler",
		"build_s":                      build.Seconds(),
		"known_findings_seen":          sortedKeys(known),
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": append([]string{"the simulated file system behaves like a POSIX file system on Linux", "instrumentation keeps the program's sequential meaning"}, p.Assume...),
		"wall_s":      wall.Seconds(), "violations": nviol,
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0777)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0666); err != nil {
		fail("%v", err)
	}
}

var _ = rt.Config{}
