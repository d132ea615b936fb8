package main

import (
	"fmt"
	"os"
	"strings"

	rt "vsim/simrt"
)

// RunSpec is one simulated execution of a case. Its disk is either the case's
// initial disk or what another run left behind.
type RunSpec struct {
	Label    string     `json:"label"`
	Args     []string   `json:"args"`
	CPUs     int        `json:"cpus"`
	Seed     uint64     `json:"seed"`
	Policy   string     `json:"policy,omitempty"`
	Preempt  int64      `json:"preempt,omitempty"`
	Pool     string     `json:"pool,omitempty"`
	Capacity int64      `json:"capacity,omitempty"`
	Epoch    int64      `json:"epoch,omitempty"`
	Faults   []rt.Fault `json:"faults,omitempty"`
	Trace    *rt.Trace  `json:"trace,omitempty"`
	MaxTicks int64      `json:"max_ticks,omitempty"`
}

// Case is everything a check needs; it is what a replay file holds.
type Case struct {
	Prop  string              `json:"prop"`
	Seed  uint64              `json:"seed"`
	Note  string              `json:"note,omitempty"`
	Wads  map[string]*WadSpec `json:"wads,omitempty"`  // path -> spec (expanded into files)
	Files []rt.FileSpec       `json:"files,omitempty"` // literal files
	Runs  []RunSpec           `json:"runs"`
	Extra map[string]string   `json:"extra,omitempty"`
}

func (c *Case) clone() *Case {
	n := *c
	n.Runs = make([]RunSpec, len(c.Runs))
	for i, r := range c.Runs {
		n.Runs[i] = r
		n.Runs[i].Faults = append([]rt.Fault(nil), r.Faults...)
	}
	n.Wads = map[string]*WadSpec{}
	for k, v := range c.Wads {
		n.Wads[k] = v
	}
	n.Extra = map[string]string{}
	for k, v := range c.Extra {
		n.Extra[k] = v
	}
	return &n
}

func (c *Case) disk() []rt.FileSpec {
	var fs []rt.FileSpec
	for _, p := range sortedKeys(c.Wads) {
		fs = append(fs, rt.FileSpec{Path: p, Data: c.Wads[p].Bytes()})
	}
	return append(fs, c.Files...)
}

// full is the case with its wads expanded into files: the form a check sees,
// and the form a replay file holds.
func (c *Case) full() *Case {
	n := c.clone()
	n.Files = c.disk()
	n.Wads = nil
	return n
}

// setFile replaces (or adds) a file of an expanded case's initial disk.
func (c *Case) setFile(path string, data []byte) {
	if c.Wads[path] != nil {
		fail("setFile of an unexpanded case")
	}
	fs := []rt.FileSpec{{Path: path, Data: data}}
	for _, f := range c.Files {
		if f.Path != path {
			fs = append(fs, f)
		}
	}
	c.Files = fs
}

func (c *Case) file(path string) []byte {
	for _, f := range c.disk() {
		if f.Path == path {
			return f.Data
		}
	}
	return nil
}

// disk left by a run
func diskOf(res *rt.Result) []rt.FileSpec {
	var fs []rt.FileSpec
	first := map[int]string{}
	for _, f := range res.Files {
		if f.Path == "/" || f.Path == "/tmp" || f.Path == "/w" {
			continue
		}
		s := rt.FileSpec{Path: f.Path, Data: f.Data, Kind: f.Kind, To: f.To}
		if f.Kind == "" {
			if p, ok := first[f.Ino]; ok {
				s = rt.FileSpec{Path: f.Path, Kind: "hardlink", To: p}
			} else {
				first[f.Ino] = f.Path
			}
		}
		fs = append(fs, s)
	}
	return fs
}

func (r *RunSpec) config(disk []rt.FileSpec) *rt.Config {
	return &rt.Config{Args: r.Args, CPUs: r.CPUs, Seed: r.Seed, Policy: r.Policy, Preempt: r.Preempt, Pool: r.Pool, Epoch: r.Epoch,
		Capacity: r.Capacity, Faults: r.Faults, Trace: r.Trace, Files: disk, Cwd: "/w", MaxTicks: r.MaxTicks}
}

// do runs run i of the case on the case's initial disk.
func (c *Case) do(e *Exec, i int, tweak ...func(*rt.Config)) *rt.Result {
	return c.doOn(e, i, c.disk(), tweak...)
}

func (c *Case) doOn(e *Exec, i int, disk []rt.FileSpec, tweak ...func(*rt.Config)) *rt.Result {
	cfg := c.Runs[i].config(disk)
	cfg.MaxTicks = 1500000000
	if c.Runs[i].MaxTicks > 0 {
		cfg.MaxTicks = c.Runs[i].MaxTicks
	}
	for _, t := range tweak {
		t(cfg)
	}
	res := e.Run(cfg)
	if d := os.Getenv("VSIM_SHOW"); d != "" {
		showRun(d, cfg, res)
	}
	return res
}

// showRun (debugging aid) leaves what a run printed and wrote in directory d.
func showRun(d string, cfg *rt.Config, res *rt.Result) {
	for k := 0; ; k++ {
		p := fmt.Sprintf("%s/%d", d, k)
		if os.Mkdir(p, 0777) != nil {
			if k > 1000 {
				return
			}
			continue
		}
		os.WriteFile(p+"/stdout", []byte(res.Stdout), 0666)
		os.WriteFile(p+"/stderr", []byte(res.Stderr), 0666)
		os.WriteFile(p+"/how", []byte(fmt.Sprintf("%v\n%s\nfired %+v\n", cfg.Args, describe(res), res.Fired)), 0666)
		for i := range cfg.Files {
			os.WriteFile(p+"/before"+strings.ReplaceAll(cfg.Files[i].Path, "/", "_"), cfg.Files[i].Data, 0666)
		}
		for i := range res.Files {
			os.WriteFile(p+"/after"+strings.ReplaceAll(res.Files[i].Path, "/", "_"), res.Files[i].Data, 0666)
		}
		return
	}
}

func wantOps(c *rt.Config)   { c.WantOps = true }
func wantState(c *rt.Config) { c.WantOps, c.WantState = true, true }
func noDrain(c *rt.Config)   { c.NoDrain = true }

// Violation of a property by a case.
type Violation struct {
	Class string // stable name of the failure class
	Msg   string
	Run   int // run whose schedule and faults are to be minimised, -1 none
}

func viol(class string, run int, f string, a ...interface{}) *Violation {
	return &Violation{Class: class, Run: run, Msg: fmt.Sprintf(f, a...)}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

func describe(res *rt.Result) string {
	s := fmt.Sprintf("how=%s exit=%d", res.How, res.Exit)
	if res.Msg != "" {
		s += " msg=" + firstLines(res.Msg, 12)
	}
	if t := strings.TrimSpace(res.Stderr); t != "" {
		s += " stderr=" + firstLines(t, 6)
	}
	return s
}

// abnormal: the program crashed or hung (C08's business, but no other check may
// silently accept it).
func abnormal(res *rt.Result) bool {
	switch res.How {
	case "gpanic", "deadlock", "stepcap", "fatal":
		return true
	}
	return false
}
