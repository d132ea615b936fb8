package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	rt "vsim/simrt"
)

// ---------------------------------------------------------------- RMB report

const (
	rptPath    = "/w/in.rpt"
	rptTrailer = "# Report written successfully - no entries lost"
)

// reportLines splits a report into its lines, whatever ends them.
func reportLines(b []byte) []string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimRight(l, "\r")
		if l != "" {
			out = append(out, l)
		}
	}
	return out
}

func hasTrailer(b []byte) bool {
	l := reportLines(b)
	for _, x := range l {
		if strings.HasPrefix(x, rptTrailer) {
			return true
		}
	}
	return false
}

// expectReport derives the entries a report must hold from the option file and
// the output: for every level and REPORT n the pairs of mutually visible sectors
// more than n sectors apart. ok is false when the option file or a level uses
// something the model leaves out.
func expectReport(c *Case, k *cli, outWad []byte) (lines []string, known bool) {
	in, err := parseWad(c.file("/w/in.wad"))
	if err != nil {
		return nil, false
	}
	out, err := parseWad(outWad)
	if err != nil {
		return nil, false
	}
	fs, _ := parseFrames(string(c.file("/w/in.rej")))
	_, levels := expected(in, k)
	for _, x := range levels {
		own, global := frameOf(fs, x.name)
		var reports []int
		for _, f := range []*rmbFrameT{own, global} {
			if f == nil {
				continue
			}
			var here []int
			for _, cmd := range f.cmds {
				w := strings.Fields(cmd)
				switch w[0] {
				case "GROUP", "LINE", "LEFT", "RIGHT", "NOPROCESS":
					return nil, false
				case "REPORT":
					n, err := strconv.Atoi(w[1])
					if err != nil || n > 65535 {
						return nil, false
					}
					here = append(here, n)
				}
			}
			if len(reports) == 0 {
				reports = here
			}
		}
		if len(reports) == 0 {
			continue
		}
		l := inLvl(in, x)
		if l.bad != "" || l.sectors == 0 {
			return nil, false
		}
		near := make([][]int, l.sectors)
		edges := 0
		for _, ln := range l.lines {
			if ln.flags&4 == 0 || ln.side[0] == 0xffff || ln.side[1] == 0xffff || ln.x1 == ln.x2 && ln.y1 == ln.y2 {
				continue
			}
			if ln.side[0] >= len(l.sides) || ln.side[1] >= len(l.sides) {
				return nil, false
			}
			a, b := l.sides[ln.side[0]], l.sides[ln.side[1]]
			if a >= l.sectors || b >= l.sectors || a == b {
				return nil, false // self-referencing: found out by the program
			}
			near[a] = append(near[a], b)
			near[b] = append(near[b], a)
			edges++
		}
		if edges == 0 {
			continue // no visibility to compute, no distances
		}
		rej := out.ents[x.outIdx["REJECT"]].data
		hidden := func(i, j int) bool {
			p := i*l.sectors + j
			return p/8 < len(rej) && rej[p/8]>>uint(p%8)&1 != 0
		}
		for _, n := range reports {
			lines = append(lines, fmt.Sprintf("# %s All sectors with LOS distance>%d are reported", x.name, n))
			for i := 0; i < l.sectors; i++ {
				d := make([]int, l.sectors)
				for j := range d {
					d[j] = 65535
				}
				d[i] = 0
				for q := []int{i}; len(q) > 0; q = q[1:] {
					for _, y := range near[q[0]] {
						if d[y] == 65535 {
							d[y] = d[q[0]] + 1
							q = append(q, y)
						}
					}
				}
				for j := i + 1; j < l.sectors; j++ {
					if d[j] > n && !hidden(i, j) && !hidden(j, i) {
						lines = append(lines, fmt.Sprintf("%d,%d", i, j))
					}
				}
			}
		}
	}
	return lines, true
}

func init() {
	register(&Prop{ID: "C16", Quick: 1500, Thorough: 40000,
		Rule: "Each seed generates a build with REPORT options (some with an older report in place) and runs it undisturbed under two schedules, with failing writes, syncs and closes of the report, failures elsewhere that abort the run, full disks, kills and power losses.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			c, o := faultCase(r, r.P(0.4), true)
			o.Det = r.P(0.5)
			old := r.P(0.25)
			if old {
				t := "# VigilantBSP old\n# MAP01 All sectors with LOS distance>0 are reported\n0,1\n"
				t += strings.Repeat("0,2\n", r.N(3000))
				if r.P(0.8) {
					t += rptTrailer + "\n"
				}
				c.Files = append(c.Files, rt.FileSpec{Path: rptPath, Data: []byte(t)})
			}
			base := vary(r, o, "faulty")
			rpt := func(x *rt.Op) bool { return x.Path == rptPath }
			cs := faultCases(e, r, c, base, 5, func(ops []rt.Op) []rt.Fault {
				if anyOp(ops, rpt) && r.P(0.6) {
					if r.P(0.25) && !old {
						f, _ := drawCrash(r, ops, r.Pick("kill", "power"), rpt)
						return []rt.Fault{f}
					}
					f, ok := drawFault(r, ops, rpt)
					if !ok {
						return nil
					}
					fs := []rt.Fault{f}
					if r.P(0.2) {
						if g, ok := drawFault(r, ops, ownFile); ok {
							fs = append(fs, g)
						}
					}
					return fs
				}
				if r.P(0.2) {
					f, _ := drawCrash(r, ops, "kill", ownFile)
					return []rt.Fault{f}
				}
				f, ok := drawFault(r, ops, ownFile)
				if !ok {
					return nil
				}
				return []rt.Fault{f}
			})
			for k := 0; k < 2; k++ {
				x := c.clone()
				x.Runs = []RunSpec{vary(r, o, "other")}
				cs = append(cs, x)
			}
			x := c.clone()
			b := base
			b.Capacity = capacityFor(r, c, probeOps(e, c, base))
			x.Runs = []RunSpec{b}
			return append(cs, x)
		},
		Check: func(e *Exec, c *Case) *Violation {
			// the reference: the first schedule of all
			rc := c.clone()
			rc.Runs[0].CPUs, rc.Runs[0].Seed, rc.Runs[0].Policy, rc.Runs[0].Preempt, rc.Runs[0].Pool = 1, 1, "fifo", -1, "keep"
			ref := cleanRun(e, rc, 0, nil)
			if v := endsWell(c, 0, ref); v != nil {
				return v
			}
			if !claimsSuccess(ref) {
				return nil
			}
			k := parseCLI(c.Runs[0].Args)
			old := c.file(rptPath)
			want := file(ref, rptPath)
			written := want != nil && !bytes.Equal(want, old)
			if lines, known := expectReport(c, k, file(ref, k.outPath())); known {
				var got []string
				if written {
					got = reportLines(want)
					if len(got) < 2 || !strings.HasPrefix(got[0], "# VigilantBSP") || got[len(got)-1] != rptTrailer {
						return viol("no-trailer", -1, "a successful run's report does not start with the program's name and end with the success line: %q", string(want))
					}
					got = got[1 : len(got)-1]
				}
				if strings.Join(got, "\n") != strings.Join(lines, "\n") {
					return viol("entries", -1, "report holds %d line(s) instead of %d: first difference %s", len(got), len(lines), firstDiff(got, lines))
				}
				if len(lines) > 0 {
					e.tally.Probe("entries checked against the model")
				}
			}
			res := c.do(e, 0, wantOps)
			if v := hung(0, res); v != nil {
				return v
			}
			got := file(res, rptPath)
			touchedR := touched(res, rptPath)
			undisturbed := len(res.Fired) == 0
			if undisturbed {
				if !claimsSuccess(res) {
					return viol("failed", 0, "an undisturbed run fails: %s", describe(res))
				}
				if !bytes.Equal(got, want) {
					return viol("report-differs", 0, "the report depends on the schedule: %d/%d bytes, %s", len(got), len(want), firstDiff(reportLines(got), reportLines(want)))
				}
				return nil
			}
			if got == nil || !touchedR && bytes.Equal(got, old) {
				return nil
			}
			bad := firedFault(c, 0, res, func(f *rt.Fault) bool {
				return f.Path == rptPath && isErrno(f.Kind) && (f.Op == "write" || f.Op == "pwrite" || f.Op == "sync" || f.Op == "close" || f.Op == "truncate" || f.Op == "seek" || f.Op == "writeback")
			})
			lost := firedFault(c, 0, res, func(f *rt.Fault) bool {
				return f.Path == rptPath && isErrno(f.Kind) && (f.Op == "write" || f.Op == "pwrite" || f.Op == "sync")
			})
			if hasTrailer(got) && !bytes.Equal(got, old) {
				// a line torn just before its end still tells the truth
				if !bytes.Equal(bytes.TrimRight(got, "\r\n"), bytes.TrimRight(want, "\r\n")) {
					return viol("false-claim", 0, "%s: the report claims to be complete but differs from an undisturbed run's (%d/%d bytes, %s): %s", faultText(c, 0), len(got), len(want), firstDiff(reportLines(got), reportLines(want)), describe(res))
				}
				if lost && bytes.Equal(got, want) {
					return viol("claim-after-error", 0, "%s: the report claims to be complete although writing it failed: %s", faultText(c, 0), describe(res))
				}
				e.tally.Probe("disturbed run, report complete and says so")
			} else if !bytes.Equal(got, old) {
				e.tally.Probe("disturbed run, report does not claim completeness")
			}
			if !crashed(res) && bad && ok(res) {
				return viol("unreported", 0, "%s: writing the report failed but the run ends with status 0: %s", faultText(c, 0), describe(res))
			}
			if !crashed(res) && ok(res) && claimsSuccess(res) && touchedR && written && !bytes.Equal(got, want) && strings.TrimSpace(res.Stderr) == "" {
				return viol("silent", 0, "%s: the report is incomplete but the run reports nothing", faultText(c, 0))
			}
			return nil
		}})
}

func anyOp(ops []rt.Op, want func(o *rt.Op) bool) bool {
	for i := range ops {
		if want(&ops[i]) {
			return true
		}
	}
	return false
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(end)", "(end)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("line %d %q / %q", i+1, x, y)
		}
	}
	return "none"
}
