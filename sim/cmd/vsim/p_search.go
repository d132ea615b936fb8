package main

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	rt "vsim/simrt"
)

var reLargest = regexp.MustCompile(`largest block offset value: (\d+)`)

// tuneFar adds isolated lines until the largest blockmap offset at (0,0) is
// next to the format limit, so that the offset tried decides whether the
// blockmap fits.
func tuneFar(e *Exec, r *Rng, c *Case, o Options) {
	for _, it := range c.Wads["/w/in.wad"].Items {
		l := it.Level
		if l == nil || l.Far[2] == 0 {
			continue
		}
		b := o.B
		if i := strings.Index(b, "o="); i >= 0 {
			j := i + 2
			for j < len(b) && (b[j] == ',' || b[j] >= '0' && b[j] <= '9') {
				j++
			}
			b = b[:i] + b[j:]
		}
		b = strings.NewReplacer("s?", "", "a?", "").Replace(b)
		l.Fill = 0
		w := &WadSpec{Items: []ItemSpec{{Level: l}}}
		probe := &Case{Wads: map[string]*WadSpec{"/w/in.wad": w}, Runs: []RunSpec{{Args: []string{"-b" + b + "o=0", "-n-", "-rz", "in.wad", "-o", "out.wad"}, CPUs: 1, Seed: 1, Policy: "fifo", Preempt: -1}}}
		if os.Getenv("VSIM_CANDS") != "" {
			fmt.Println("TUNE", b, reLargest.FindStringSubmatch(probe.do(e, 0).Stdout), l.Far, l.Pen, l.Tail)
		}
		m := reLargest.FindStringSubmatch(probe.do(e, 0).Stdout)
		if m == nil {
			continue
		}
		v, _ := strconv.Atoi(m[1])
		limit := 32768
		if v > 45000 {
			limit = 65536
		}
		per := 3
		if strings.Contains(b, "z=0") {
			per = 2
		}
		n := (limit-v)/per + r.Range(-3, 6)
		if l.Pen != [12]int{} {
			// the limit is to separate the offsets whose pairs add less from the others
			var adds []int
			for y := 6; y < 12; y++ {
				for x := 0; x < 6; x++ {
					adds = append(adds, (per-1)*(l.Pen[x]-l.Pen[0]+l.Pen[y]-l.Pen[6]))
				}
			}
			sort.Ints(adds)
			n = (limit - 1 - v - adds[r.N(18)]) / per
			if l.Tail > 0 {
				n = (limit - 1 - v - adds[r.N(24)] - r.N(l.Tail/3)) / per
			}
		}
		if n > 0 && n < 1100 {
			l.Fill = n
		}
	}
}

type bmCand struct {
	x, y    int
	data    []byte
	fitV    bool // works in vanilla
	fit16   bool // works at all
	largest int
}

func (a *bmCand) rank(b *bmCand) int { // <0 a is better
	if a.fit16 != b.fit16 {
		if a.fit16 {
			return -1
		}
		return 1
	}
	if a.fitV != b.fitV {
		if a.fitV {
			return -1
		}
		return 1
	}
	return len(a.data) - len(b.data)
}

func bmCandOf(data []byte, k *cli) *bmCand {
	c := &bmCand{data: data}
	if len(data) > 0 {
		c.fit16 = true
		m, err := parseBlockmap(data, k)
		if err != nil {
			fail("candidate blockmap does not parse: %v", err)
		}
		c.fitV = m.largest < 32768
		c.largest = m.largest
	}
	return c
}

func blockmapOf(c *Case, res *rt.Result, k *cli, level int) []byte {
	in, err := parseWad(c.file("/w/in.wad"))
	if err != nil {
		fail("input: %v", err)
	}
	out, err := parseWad(file(res, k.outPath()))
	if err != nil {
		fail("output: %v", err)
	}
	_, lv := expected(in, k)
	if level >= len(lv) {
		fail("no level %d", level)
	}
	return out.ents[lv[level].outIdx["BLOCKMAP"]].data
}

func init() {
	register(&Prop{ID: "C12", Quick: 450, Thorough: 9000, MinRuns: 1,
		Rule: "Each seed generates a level (one in nine with extents at the limits of the blockmap format) and blockmap options; all 36 offsets are built one by one as reference, then the search over them runs under three seeded schedules and worker counts; a few seeds use the exhaustive and heuristic searches.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			far := r.P(0.14)
			g := genOpt{maxW: 6, scroll: 0.1, tags: 0.1}
			if far {
				g.far = 1
				g.maxW = 4
			}
			c := &Case{Wads: map[string]*WadSpec{"/w/in.wad": {Items: []ItemSpec{{Level: genLevel(r, "MAP01", g)}}}}, Extra: map[string]string{}}
			o := Options{In: "in.wad", Out: "out.wad", HasB: true, HasN: true, N: "-", HasR: true, R: "z"}
			mode := "2"
			if !far && r.P(0.04) {
				mode = r.Pick("3", "4")
				l := c.Wads["/w/in.wad"].Items[0].Level
				l.W, l.H = 1+l.W%3, 1+l.H%3
			}
			if r.P(0.4) {
				o.B += r.Pick("s", "a")
			}
			if r.P(0.5) {
				o.B += fmt.Sprintf("z=%d", r.N(3))
			}
			if r.P(0.1) {
				o.B += "r"
			}
			if far {
				tuneFar(e, r, c, o)
			}
			c.Extra["b"] = o.B
			c.Extra["tail"] = fmt.Sprint(c.Wads["/w/in.wad"].Items[0].Level.Tail)
			if far && r.P(0.7) {
				o.B += fmt.Sprintf("e=%d", c.Wads["/w/in.wad"].Items[0].Level.farGoal())
			} else if r.P(0.4) {
				o.B += fmt.Sprintf("e=%d", 1+r.N(2))
			}
			o.B = "o=" + mode + o.B
			o.Det = r.P(0.5)
			if r.P(0.1) { // a nearly out of range map restricts the offsets
				l := c.Wads["/w/in.wad"].Items[0].Level
				if l.Far[2] == 0 {
					l.OX = -32768 + l.Jitter + r.N(50)
				}
			}
			n := 3
			if mode != "2" {
				n = 2
			}
			if far {
				n = 6
				o.Det = r.P(0.7)
			}
			for k := 0; k < n; k++ {
				oo := o
				oo.BT = oo.bees(r, 0, 1, 2, 3, 4, 6, 7, 9, 16)
				c.Runs = append(c.Runs, vary(r, oo, fmt.Sprint("run", k)))
			}
			return []*Case{c}
		},
		Check: func(e *Exec, c *Case) *Violation {
			var cands []*bmCand
			k0 := parseCLI(c.Runs[0].Args)
			step := 8
			max := 48
			if k0.bo != "2" {
				step, max = 24, 128
			}
			for y := 0; y < max; y += step {
				for x := 0; x < max; x += step {
					probe := c.clone()
					probe.Runs = []RunSpec{{Label: "single", Args: []string{fmt.Sprintf("-bo=%d,%d%s", x, y, c.Extra["b"]), "-n-", "-rz", "in.wad", "-o", "out.wad"}, CPUs: 1, Seed: 1, Policy: "fifo", Preempt: -1, Pool: "empty"}}
					res := probe.do(e, 0)
					if !claimsSuccess(res) {
						return viol("reference", -1, "offset (%d,%d) alone fails: %s", x, y, describe(res))
					}
					if strings.Contains(res.Stdout, "would move map out of bounds") {
						continue
					}
					k := parseCLI(probe.Runs[0].Args)
					cd := bmCandOf(blockmapOf(probe, res, k, 0), k)
					cd.x, cd.y = x, y
					cands = append(cands, cd)
				}
			}
			if os.Getenv("VSIM_CANDS") != "" {
				t := ""
				for _, x := range cands {
					t += fmt.Sprintf("%v:%v%v(%d) ", len(x.data), x.fitV, x.fit16, x.largest)
				}
				fmt.Println("CANDS", c.Extra["tail"], c.Runs[0].Args, t)
			}
			var best *bmCand
			for _, x := range cands {
				if best == nil || x.rank(best) < 0 {
					best = x
				}
			}
			for i := range c.Runs {
				res := c.do(e, i)
				if v := endsWell(c, i, res); v != nil {
					return v
				}
				k := parseCLI(c.Runs[i].Args)
				got := bmCandOf(blockmapOf(c, res, k, 0), k)
				goal := func(x *bmCand) bool { return k.be == 1 && x.fitV || k.be == 2 && x.fit16 }
				var first *bmCand
				for _, x := range cands {
					if goal(x) {
						first = x
						break
					}
				}
				if first != nil {
					e.tally.Probe("endgoal reachable")
					if first.x+first.y > 0 {
						e.tally.Probe("endgoal first reachable at a later offset")
					}
					if !goal(got) {
						return viol("endgoal", i, "offset (%d,%d) meets the goal e=%d but the blockmap written (%d bytes) does not", first.x, first.y, k.be, len(got.data))
					}
					if k.det && k.bo == "2" && !bytes.Equal(got.data, first.data) {
						return viol("endgoal-first", i, "with -d the blockmap of the first offset meeting the goal, (%d,%d) %d bytes, was expected; got another one of %d bytes", first.x, first.y, len(first.data), len(got.data))
					}
				} else {
					if k.be > 0 {
						e.tally.Probe("endgoal unreachable")
					}
					if rk := got.rank(best); rk > 0 || rk < 0 && k.bo == "2" {
						return viol("not-optimal", i, "best single offset (%d,%d) gives %d bytes (fits vanilla: %v, any port: %v), the search wrote %d bytes (%v, %v)", best.x, best.y, len(best.data), best.fitV, best.fit16, len(got.data), got.fitV, got.fit16)
					}
				}
				if k.bo == "2" && len(got.data) > 0 {
					found := false
					for _, x := range cands {
						if bytes.Equal(x.data, got.data) {
							found = true
						}
					}
					if !found {
						return viol("not-a-candidate", i, "the blockmap written (%d bytes) equals none of the candidates", len(got.data))
					}
				}
			}
			return nil
		}})

	register(&Prop{ID: "C02", Quick: 2500, Thorough: 15000, MinRuns: 1,
		Rule: "Each seed generates wads and options; the same build runs once with -d under a fixed schedule and then without -d under further seeded environments; directories and all lumps but BLOCKMAP must be equal, BLOCKMAP of equal size (without endgoal).",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			far, big := r.P(0.02), bigKind(i, 100, 6)
			g := genOpt{maxLevels: 3, odd: r.P(0.3), hexen: 0.2, maxW: []int{3, 5, 7, 9}[r.N(4)], scroll: 0.1, tags: 0.1}
			if big != "" {
				far, g.maxLevels = false, 1
			} else if far {
				g.far, g.maxLevels, g.maxW = 1, 1, 3
			}
			c, o := buildCase(r, g, optGen{multitree: 0.25, endgoal: 0.2, noRebuild: true, rejectZ: true, filter: true})
			if big != "" {
				bigWad(r, c, &o, big)
			} else if far {
				o.B = strings.ReplaceAll(o.B, "o=2", "")
			}
			if r.P(0.25) {
				withOptionFile(r, c, &o, r.P(0.4))
			}
			d := o
			d.Det = true
			c.Runs = []RunSpec{baseRun(d, "reference -d")}
			n := 2 + r.N(2)
			for k := 0; k < n; k++ {
				v := o
				v.Det = false
				if r.P(0.6) {
					v.BT = v.bees(r, 0, 1, 2, 3, 7, 16)
				}
				if r.P(0.6) && o.MultiTree {
					v.NT = r.PickI(0, 1, 2, 3, 5, 16)
				}
				c.Runs = append(c.Runs, vary(r, v, fmt.Sprint("run", k)))
			}
			return []*Case{c}
		},
		Check: func(e *Exec, c *Case) *Violation {
			ref := c.do(e, 0)
			if v := endsWell(c, 0, ref); v != nil {
				return v
			}
			k0 := parseCLI(c.Runs[0].Args)
			for i := 1; i < len(c.Runs); i++ {
				res := c.do(e, i)
				if v := endsWell(c, i, res); v != nil {
					return v
				}
				if claimsSuccess(res) != claimsSuccess(ref) {
					return viol("status", i, "reference: %s; %s: %s", describe(ref), c.Runs[i].Label, describe(res))
				}
				if !claimsSuccess(res) {
					continue
				}
				k := parseCLI(c.Runs[i].Args)
				a, err1 := parseWad(file(ref, k0.outPath()))
				b, err2 := parseWad(file(res, k.outPath()))
				if err1 != nil || err2 != nil {
					return viol("malformed", i, "reference: %v, %s: %v", err1, c.Runs[i].Label, err2)
				}
				if len(a.ents) != len(b.ents) {
					return viol("directory", i, "%d entries instead of %d", len(b.ents), len(a.ents))
				}
				for n := range a.ents {
					x, y := a.ents[n], b.ents[n]
					if x.name != y.name {
						return viol("directory", i, "entry %d is %s instead of %s", n, y.name, x.name)
					}
					if x.name == "BLOCKMAP" && k.b {
						if x.size != y.size && k.be == 0 {
							return viol("blockmap-size", i, "entry %d BLOCKMAP has %d bytes, with -d %d", n, y.size, x.size)
						}
						continue
					}
					if !bytes.Equal(x.data, y.data) {
						return viol("lump", i, "entry %d %s differs from the result with -d (%d/%d bytes)", n, x.name, y.size, x.size)
					}
				}
				if rp := "/w/in.rpt"; !bytes.Equal(file(ref, rp), file(res, rp)) {
					return viol("report", i, "RMB report differs: %q / %q", firstLines(string(file(ref, rp)), 30), firstLines(string(file(res, rp)), 30))
				}
			}
			return nil
		}})
}

// withOptionFile adds an RMB option file, now and then one that asks for the
// REJECT of other levels or wads.
func withOptionFile(r *Rng, c *Case, o *Options, report bool) bool {
	if !r.P(0.2) {
		return withRMB(r, c, o, report)
	}
	for _, it := range c.Wads["/w/in.wad"].Items {
		if it.Level != nil && r.P(0.6) {
			it.Level.RejectFill = r.Range(1, 99)
		}
	}
	return withNoprocess(r, c, o)
}

// withRMB adds an RMB option file to a case.
func withRMB(r *Rng, c *Case, o *Options, report bool) bool {
	if !o.HasR || o.R == "-" || strings.HasPrefix(o.R, "z") {
		return false
	}
	o.R += "m"
	c.Files = append(c.Files, genRMB(r, c.Wads["/w/in.wad"], "/w/in.rej", report)...)
	return true
}
