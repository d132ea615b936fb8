package main

import (
	"bytes"
	"fmt"
	"strings"

	rt "vsim/simrt"
)

// ---------------------------------------------------------------- fault plans

var opKinds = map[string][]string{
	"open": {"EACCES", "EMFILE", "EIO", "ENOENT"}, "createtemp": {"EACCES", "ENOSPC", "EROFS", "EMFILE"},
	"read": {"EIO", "ESTALE", "short", "eof"}, "pread": {"EIO", "ESTALE", "short", "eof"},
	"write": {"EIO", "ENOSPC", "EDQUOT", "short"}, "pwrite": {"EIO", "ENOSPC", "EDQUOT", "short"},
	"seek": {"EIO"}, "sync": {"EIO", "ENOSPC"}, "close": {"EIO", "ENOSPC", "EDQUOT"}, "truncate": {"EIO", "ENOSPC"},
	"stat": {"EACCES", "EIO", "ENOMEM"}, "lstat": {"EACCES", "EIO"}, "fstat": {"EIO"}, "remove": {"EACCES", "EBUSY", "EIO"},
	"rename": {"EACCES", "EIO", "ENOSPC"}, "link": {"EPERM", "ENOSPC"}, "symlink": {"EPERM"}, "mkdir": {"EACCES", "ENOSPC"}, "chmod": {"EPERM"},
}

// drawOp picks one of the operations of a fault-free run: first a kind of
// operation on a file, so that rare ones are as likely as frequent ones, then
// one of its occurrences.
func drawOp(r *Rng, ops []rt.Op, want func(o *rt.Op) bool) *rt.Op {
	groups := map[string][]int{}
	for i := range ops {
		if want == nil || want(&ops[i]) {
			k := ops[i].Op + " " + ops[i].Path
			groups[k] = append(groups[k], i)
		}
	}
	if len(groups) == 0 {
		return nil
	}
	ks := sortedKeys(groups)
	g := groups[ks[r.N(len(ks))]]
	if r.P(0.25) {
		return &ops[g[len(g)-1]]
	}
	return &ops[g[r.N(len(g))]]
}

func drawFault(r *Rng, ops []rt.Op, want func(o *rt.Op) bool) (rt.Fault, bool) {
	o := drawOp(r, ops, want)
	if o == nil {
		return rt.Fault{}, false
	}
	ks := opKinds[o.Op]
	if len(ks) == 0 {
		return rt.Fault{}, false
	}
	f := rt.Fault{Op: o.Op, Path: o.Path, Nth: o.Nth, Kind: ks[r.N(len(ks))]}
	late := map[string]float64{"sync": 0.4, "close": 0.4, "write": 0.15, "pwrite": 0.15}[o.Op]
	if r.P(late) && written(ops, o.Path) {
		// writes are accepted but lost, which sync or close tells
		return rt.Fault{Op: "writeback", Path: o.Path, Nth: r.N(2), Kind: r.Pick("EIO", "ENOSPC", "EDQUOT"),
			When: r.Pick("", "", "hole"), Part: []float64{0, 0.5, 0.99, float64(r.N(100)) / 100}[r.N(4)]}, true
	}
	if f.Op == "open" && f.Kind == "ENOENT" && strings.HasSuffix(strings.ToLower(f.Path), ".rej") {
		f.Kind = "EACCES" // no option file is not a failure
	}
	f.Part = []float64{0, 0, 0.5, 0.99, float64(r.N(100)) / 100}[r.N(5)]
	f.Stay = f.Kind != "short" && f.Kind != "eof" && r.P(0.4)
	return f, true
}

// written tells whether a file is written to.
func written(ops []rt.Op, path string) bool {
	return anyOp(ops, func(o *rt.Op) bool { return o.Path == path && (o.Op == "write" || o.Op == "pwrite") })
}

func drawCrash(r *Rng, ops []rt.Op, kind string, want func(o *rt.Op) bool) (rt.Fault, bool) {
	o := drawOp(r, ops, want)
	if o == nil {
		return rt.Fault{}, false
	}
	f := rt.Fault{Op: o.Op, Path: o.Path, Nth: o.Nth, Kind: kind, When: r.Pick("before", "after", "after", "mid")}
	f.Part = []float64{0, 0.5, 0.99, float64(r.N(100)) / 100}[r.N(4)]
	return f, true
}

// faultCase draws a small build; in-place when inPlace.
func faultCase(r *Rng, inPlace bool, report bool) (*Case, Options) {
	w := genWad(r, genOpt{maxLevels: 2, maxW: 4, odd: r.P(0.4), hexen: 0.15, scroll: 0.1})
	if r.P(0.2) { // something big, so that copying needs several writes
		w.Items = append(w.Items, ItemSpec{Lump: "BIGLUMP", Size: r.PickI(20000, 40000, 70000, 140000), Seed: r.Next() >> 1})
	}
	o := genOptions(r, optGen{multitree: 0.1, endgoal: 0.1, noRebuild: true, rejectZ: true, hash: 0.1})
	c := &Case{Wads: map[string]*WadSpec{"/w/in.wad": w}, Extra: map[string]string{}}
	if !inPlace {
		o.Out = "out.wad"
		if r.P(0.3) {
			c.Files = append(c.Files, rt.FileSpec{Path: "/w/out.wad", Data: junkBytes(r, r.PickI(0, 100, 60000))})
		}
		if r.P(0.15) {
			o.Rest = append(o.Rest, "--eject")
		}
	}
	if report && (!o.HasR || o.R == "-" || strings.HasPrefix(o.R, "z")) {
		o.R = ""
	}
	if report || r.P(0.25) {
		withRMB(r, c, &o, report || r.P(0.5))
	}
	return c, o
}

// probeOps runs the case's run 0 without faults and returns its operations.
func probeOps(e *Exec, c *Case, run RunSpec) *rt.Result {
	p := c.clone()
	run.Faults, run.Capacity = nil, 0
	p.Runs = []RunSpec{run}
	return p.do(e, 0, wantOps)
}

// afterStart limits faults to operations on the case's own files.
func ownFile(o *rt.Op) bool {
	return strings.HasPrefix(o.Path, "/w/") || strings.HasPrefix(o.Path, "<temp")
}

// plans expands a run into several runs that differ in their faults. Every one
// becomes a case of its own.
func faultCases(e *Exec, r *Rng, c *Case, base RunSpec, n int, draw func(ops []rt.Op) []rt.Fault) []*Case {
	ref := probeOps(e, c, base)
	if len(ref.Ops) == 0 {
		return nil
	}
	var out []*Case
	for k := 0; k < n; k++ {
		fs := draw(ref.Ops)
		if len(fs) == 0 {
			continue
		}
		x := c.clone()
		b := base
		b.Faults = fs
		b.Label = "faulty"
		x.Runs = []RunSpec{b}
		x.Seed = r.Next() >> 1
		out = append(out, x)
	}
	return out
}

// cleanRun is the undisturbed run a faulty one is compared with.
func cleanRun(e *Exec, c *Case, i int, disk []rt.FileSpec) *rt.Result {
	p := c.clone()
	b := c.Runs[i]
	b.Faults, b.Capacity, b.Trace = nil, 0, nil
	p.Runs = []RunSpec{b}
	if disk == nil {
		disk = c.disk()
	}
	return p.doOn(e, 0, disk)
}

func tempsOf(res *rt.Result) []rt.FileOut {
	var out []rt.FileOut
	for _, f := range res.Files {
		if f.Temp {
			out = append(out, f)
		}
	}
	return out
}

func crashed(res *rt.Result) bool { return res.How == "killed" || res.How == "power" }

// endedBadly: a fault must not make the program hang, however it ends.
func hung(i int, res *rt.Result) *Violation {
	switch res.How {
	case "deadlock", "stepcap", "fatal":
		return viol("hang", i, "%s", describe(res))
	}
	return nil
}

func anyFault(fs []rt.Fault, f func(x *rt.Fault) bool) bool {
	for i := range fs {
		if f(&fs[i]) {
			return true
		}
	}
	return false
}

// firedFault tells whether a fault satisfying f really struck.
func firedFault(c *Case, i int, res *rt.Result, f func(x *rt.Fault) bool) bool {
	for _, x := range res.Fired {
		if x.Fault >= 0 && x.Fault < len(c.Runs[i].Faults) && f(&c.Runs[i].Faults[x.Fault]) {
			return true
		}
	}
	return false
}

// touched tells whether an operation that can change a file was tried on it.
func touched(res *rt.Result, path string) bool {
	for i := range res.Ops {
		if res.Ops[i].Mut && res.Ops[i].Path == path {
			return true
		}
	}
	return false
}

func isErrno(k string) bool { return strings.HasPrefix(k, "E") }

func faultText(c *Case, i int) string {
	var s []string
	for _, f := range c.Runs[i].Faults {
		s = append(s, fmt.Sprintf("%s of %s #%d: %s %s", f.Op, f.Path, f.Nth, f.Kind, f.When))
	}
	if c.Runs[i].Capacity > 0 {
		s = append(s, fmt.Sprintf("disk of %d bytes", c.Runs[i].Capacity))
	}
	return strings.Join(s, ", ")
}

// capacityFor draws a disk size that runs full somewhere during the run.
func capacityFor(r *Rng, c *Case, full *rt.Result) int64 {
	var before, after int64
	for _, f := range c.disk() {
		before += int64(len(f.Data))
	}
	seen := map[int]bool{}
	for _, f := range full.Files {
		if !seen[f.Ino] {
			seen[f.Ino] = true
			after += int64(len(f.Data))
		}
	}
	// while an in-place build runs, the temporary file comes on top
	peak := before + after
	if r.P(0.4) {
		return before + int64(r.N(int(after-before+4000+1)&0xfffff+1))
	}
	return before + int64(r.N(int(peak-before)+1))
}

// sourcesOf lists the files the program only ever may read.
func sourcesOf(c *Case, k *cli) []string {
	out := []string{"/w/in.wad"}
	for _, f := range c.Files {
		if f.Kind == "" && f.Path != k.outPath() && f.Path != "/w/in.rpt" && !strings.HasSuffix(f.Path, "/out.wad") {
			out = append(out, f.Path)
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "C05", Quick: 2000, Thorough: 40000,
		Rule: "Each seed generates an in-place build, runs it undisturbed to learn its file operations, and repeats it with a kill, a power loss (before, during or after any of them; unsynced data survives partly), a failing operation, a full disk, or a failure followed by a crash.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			c, o := faultCase(r, true, r.P(0.1))
			if r.P(0.04) {
				aliasReport(r, c, "/w/in.wad", "in.wad", "/w/in.rej")
			}
			o.Det = true
			base := vary(r, o, "faulty")
			mut := func(x *rt.Op) bool { return ownFile(x) && x.Path != "/w/in.rej" && x.Path != "/w/in.rpt" }
			late := func(x *rt.Op) bool {
				return mut(x) && (x.Op == "sync" || x.Op == "close" || x.Op == "remove" || x.Op == "rename" || x.Op == "truncate" || x.Path == "/w/in.wad" && x.Op != "pread" && x.Op != "read" || x.Op == "open")
			}
			cs := faultCases(e, r, c, base, 4, func(ops []rt.Op) []rt.Fault {
				w := mut
				if r.P(0.6) {
					w = late
				}
				switch r.N(5) {
				case 0:
					f, _ := drawCrash(r, ops, "kill", w)
					return []rt.Fault{f}
				case 1, 2:
					f, _ := drawCrash(r, ops, "power", w)
					return []rt.Fault{f}
				case 3:
					f, ok := drawFault(r, ops, w)
					if !ok {
						return nil
					}
					return []rt.Fault{f}
				default:
					f, ok := drawFault(r, ops, late)
					g, _ := drawCrash(r, ops, r.Pick("kill", "power"), late)
					if !ok {
						return nil
					}
					return []rt.Fault{f, g}
				}
			})
			x := c.clone()
			b := base
			full := probeOps(e, c, base)
			b.Capacity = capacityFor(r, c, full)
			x.Runs = []RunSpec{b}
			return append(cs, x)
		},
		Check: func(e *Exec, c *Case) *Violation {
			ref := cleanRun(e, c, 0, nil)
			if v := endsWell(c, 0, ref); v != nil {
				return v
			}
			orig, final := c.file("/w/in.wad"), file(ref, "/w/in.wad")
			res := c.do(e, 0)
			if v := hung(0, res); v != nil {
				return v
			}
			for _, f := range res.Files {
				if f.Kind == "" && strings.HasPrefix(f.Path, "/w/") && (bytes.Equal(f.Data, orig) || bytes.Equal(f.Data, final)) {
					switch {
					case f.Temp:
						e.tally.Probe("survivor: temporary file")
					case bytes.Equal(f.Data, final):
						e.tally.Probe("survivor: input path holds the result")
					default:
						e.tally.Probe("survivor: input path holds the original")
					}
					return nil
				}
			}
			left := ""
			for _, f := range res.Files {
				if strings.HasPrefix(f.Path, "/w/") {
					left += fmt.Sprintf(" %s (%d bytes)", f.Path, len(f.Data))
				}
			}
			return viol("map-lost", 0, "%s: neither the original (%d bytes) nor the result (%d bytes) survives; left:%s; %s", faultText(c, 0), len(orig), len(final), left, describe(res))
		}})

	register(&Prop{ID: "C06", Quick: 1500, Thorough: 40000,
		Rule: "Each seed generates a build (to a file or in place), runs it undisturbed to learn its file operations, and repeats it with failing, short or truncated operations or a full disk.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			c, o := faultCase(r, r.P(0.4), false)
			o.Det = true
			base := vary(r, o, "faulty")
			cs := faultCases(e, r, c, base, 5, func(ops []rt.Op) []rt.Fault {
				f, ok := drawFault(r, ops, ownFile)
				if !ok {
					return nil
				}
				fs := []rt.Fault{f}
				if r.P(0.15) {
					if g, ok := drawFault(r, ops, ownFile); ok {
						fs = append(fs, g)
					}
				}
				return fs
			})
			x := c.clone()
			b := base
			full := probeOps(e, c, base)
			b.Capacity = capacityFor(r, c, full)
			x.Runs = []RunSpec{b}
			return append(cs, x)
		},
		Check: checkHonest})

	register(&Prop{ID: "C07", Quick: 2000, Thorough: 40000,
		Rule: "Each seed generates a build, runs it undisturbed to learn its file operations, and repeats it with failing operations or a full disk (removing files always works); afterwards the directory may hold only what was there before, the output and the report.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			c, o := faultCase(r, r.P(0.75), r.P(0.2))
			o.Det = r.P(0.5)
			base := vary(r, o, "faulty")
			if r.P(0.08) { // refused command lines and unreadable input
				c.Wads["/w/in.wad"].Items = nil
			}
			notRemove := func(x *rt.Op) bool { return ownFile(x) && x.Op != "remove" }
			cs := faultCases(e, r, c, base, 4, func(ops []rt.Op) []rt.Fault {
				f, ok := drawFault(r, ops, notRemove)
				if !ok {
					return nil
				}
				fs := []rt.Fault{f}
				if r.P(0.3) {
					if g, ok := drawFault(r, ops, notRemove); ok {
						fs = append(fs, g)
					}
				}
				return fs
			})
			x := c.clone()
			b := base
			full := probeOps(e, c, base)
			b.Capacity = capacityFor(r, c, full)
			x.Runs = []RunSpec{b}
			y := c.clone()
			b.Capacity = 0
			y.Runs = []RunSpec{b}
			return append(cs, x, y)
		},
		Check: func(e *Exec, c *Case) *Violation {
			res := c.do(e, 0, wantOps)
			if v := hung(0, res); v != nil {
				return v
			}
			k := parseCLI(c.Runs[0].Args)
			had := map[string]bool{"/": true, "/tmp": true, "/w": true}
			for _, f := range c.disk() {
				had[f.Path] = true
			}
			for _, f := range res.Files {
				if had[f.Path] || f.Path == k.outPath() || f.Path == "/w/in.rpt" {
					continue
				}
				if f.Temp && !k.toFile() {
					// the temporary file may stay, complete, once overwriting the
					// input has begun and failed
					if touched(res, "/w/in.wad") {
						ref := cleanRun(e, c, 0, nil)
						whole := bytes.Equal(f.Data, file(ref, "/w/in.wad"))
						if !k.det {
							whole = checkStructure(c.file("/w/in.wad"), f.Data, k) == nil
						}
						if whole && !ok(res) && !claimsSuccess(res) {
							e.tally.Probe("temporary file kept as the complete copy")
							continue
						}
					}
					return viol("temp-left", 0, "%s: temporary file %s (%d bytes) is left: %s", faultText(c, 0), f.Path, len(f.Data), describe(res))
				}
				return viol("stray-file", 0, "%s: file %s (%d bytes) was created: %s", faultText(c, 0), f.Path, len(f.Data), describe(res))
			}
			return nil
		}})
}

// checkHonest is C06's check.
func checkHonest(e *Exec, c *Case) *Violation {
	ref := cleanRun(e, c, 0, nil)
	if v := endsWell(c, 0, ref); v != nil {
		return v
	}
	res := c.do(e, 0)
	if v := hung(0, res); v != nil {
		return v
	}
	k := parseCLI(c.Runs[0].Args)
	dest := k.outPath()
	if !claimsSuccess(ref) {
		if claimsSuccess(res) {
			return viol("false-success", 0, "%s: success is reported, an undisturbed run reports none", faultText(c, 0))
		}
		return nil
	}
	// operations whose failure loses data
	fatal := func(f *rt.Fault) bool {
		if !isErrno(f.Kind) && f.Kind != "eof" {
			return false
		}
		out := f.Path == dest || strings.HasPrefix(f.Path, "<temp")
		switch f.Op {
		case "read", "pread":
			return f.Path == "/w/in.wad" || f.Path == "/w/in.rej" || strings.HasPrefix(f.Path, "<temp")
		case "open":
			return f.Path != "/w/in.rpt"
		case "createtemp":
			return true
		case "write", "pwrite", "seek", "sync", "truncate", "rename":
			return out
		case "writeback":
			return f.Path != "/w/in.rpt"
		case "close":
			// closing what was only read loses nothing
			return k.toFile() && f.Path == dest
		}
		return false
	}
	full := func() bool {
		for _, x := range res.Fired {
			if x.Fault < 0 {
				return true
			}
		}
		return false
	}
	struck := firedFault(c, 0, res, fatal)
	if claimsSuccess(res) {
		if got, want := file(res, dest), file(ref, dest); !bytes.Equal(got, want) {
			return viol("false-success", 0, "%s: success is reported but %s is not what an undisturbed run writes: %s", faultText(c, 0), dest, wadDiff(want, got))
		}
		if t := tempsOf(res); len(t) > 0 {
			return viol("false-success", 0, "%s: success is reported but the temporary file %s is still there", faultText(c, 0), t[0].Path)
		}
		// reaching the end of a file is no failure where it ends anyway
		if firedFault(c, 0, res, func(f *rt.Fault) bool { return f.Kind != "eof" && fatal(f) }) {
			return viol("unreported", 0, "%s: the failure is not reported: %s", faultText(c, 0), describe(res))
		}
		if len(res.Fired) > 0 {
			e.tally.Probe("fault survived, result complete")
		}
		return nil
	}
	if ok(res) {
		// no success claimed: the exit status has to tell
		return viol("status-0", 0, "%s: the run fails but exits with status 0: %s", faultText(c, 0), lastLines(res.Stdout, 4))
	}
	if (struck || full()) && strings.TrimSpace(res.Stderr+res.Msg) == "" {
		return viol("silent", 0, "%s: the run fails without saying why: %s", faultText(c, 0), describe(res))
	}
	if len(res.Fired) == 0 {
		return viol("failed", 0, "an undisturbed run fails: %s", describe(res))
	}
	e.tally.Probe("fault reported")
	return nil
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimRight(s, "\n "), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}
