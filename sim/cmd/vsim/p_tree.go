package main

import (
	"bytes"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	rt "vsim/simrt"
)

// ---------------------------------------------------------------- multi-tree

var (
	treeDoneRe = regexp.MustCompile(`(?m)^Multi-tree: processed ([0-9]+)/([0-9]+) trees$`)
	treeSumRe  = regexp.MustCompile(`Finished processing trees \(([0-9]+) out of ([0-9]+)`)
	treeOrigRe = regexp.MustCompile(`Multi-tree: originally ([0-9]+) linedefs to try for root, but only ([0-9]+) would`)
)

// treeRank is what the documented comparison looks at, in order.
type treeRank struct {
	bad, ss, diff, max, segs int
}

func (a treeRank) cmp(b treeRank) int {
	x, y := []int{a.bad, a.ss, a.diff, a.max, a.segs}, []int{b.bad, b.ss, b.diff, b.max, b.segs}
	for i := range x {
		if x[i] != y[i] {
			if x[i] < y[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func mkRank(bad bool, ss, hl, hr, segs int) treeRank {
	r := treeRank{ss: ss, segs: segs, diff: abs(hl - hr), max: hl}
	if hr > hl {
		r.max = hr
	}
	if bad {
		r.bad = 1
	}
	return r
}

// rankOf measures the tree written to a wad.
func rankOf(l *lvlData) (treeRank, error) {
	d, err := loadBSP(l, 0)
	if err != nil {
		return treeRank{}, err
	}
	if len(d.nodes) == 0 {
		return treeRank{ss: len(d.ssec), segs: len(d.segs)}, nil
	}
	var depth func(n, lim int) int
	depth = func(n, lim int) int {
		if n < 0 || lim == 0 || n >= len(d.nodes) {
			return 0
		}
		m := 0
		for _, c := range d.nodes[n].child {
			if k := depth(c, lim-1); k > m {
				m = k
			}
		}
		return m + 1
	}
	h := func(n int) int { // as the program counts: leaves are a level as well
		if n < 0 {
			return 0
		}
		return depth(n, 5000) + 1
	}
	root := d.nodes[len(d.nodes)-1]
	return mkRank(false, len(d.ssec), h(root.child[1]), h(root.child[0]), len(d.segs)), nil
}

// rootLines counts the distinct infinite lines a root may be taken from.
func rootLines(l *lvlData, m int) (distinct, lines int) {
	type key struct{ a, b, c int }
	seen := map[key]bool{}
	n := 0
	for _, ln := range l.lines {
		two := ln.side[1] >= 0 && ln.side[1] != 0xFFFF
		if two && m&2 == 0 || !two && m&1 == 0 {
			continue
		}
		x1, y1, x2, y2 := l.vx[ln.v1], l.vy[ln.v1], l.vx[ln.v2], l.vy[ln.v2]
		if x1 == x2 && y1 == y2 {
			continue
		}
		n++
		a, b := y2-y1, x1-x2
		c := a*x1 + b*y1
		g := gcd(gcd(abs(a), abs(b)), abs(c))
		if g == 0 {
			g = 1
		}
		a, b, c = a/g, b/g, c/g
		if a < 0 || a == 0 && b < 0 {
			a, b, c = -a, -b, -c
		}
		seen[key{a, b, c}] = true
	}
	return len(seen), n
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

var bspLumps = []string{"LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES"}

func treeLumps(c *Case, res *rt.Result, k *cli, n int) (in, out *lvlData, err error) {
	iw, err := parseWad(c.file("/w/in.wad"))
	if err != nil {
		return nil, nil, err
	}
	ow, err := parseWad(file(res, k.outPath()))
	if err != nil {
		return nil, nil, err
	}
	_, lv := expected(iw, k)
	if n >= len(lv) {
		return nil, nil, fmt.Errorf("no level %d", n)
	}
	return inLvl(iw, lv[n]), outLvl(ow, lv[n]), nil
}

// checkProgress: every tree is announced once, in counting order.
func checkProgress(i int, out string, n int) *Violation {
	all := treeDoneRe.FindAllStringSubmatch(out, -1)
	for k, m := range all {
		if m[1] != strconv.Itoa(k+1) || m[2] != strconv.Itoa(n) {
			return viol("progress", i, "progress line number %d of %d reads %q", k+1, n, m[0])
		}
	}
	if len(all) != n {
		return viol("progress", i, "%d trees were announced, %d to try", len(all), n)
	}
	m := treeSumRe.FindStringSubmatch(out)
	if m == nil || m[1] != m[2] || m[1] != strconv.Itoa(n) {
		return viol("progress", i, "%q after %d trees", m, n)
	}
	return nil
}

func init() {
	register(&Prop{ID: "C11", Quick: 4500, Thorough: 6000,
		Rule: "Each seed generates one level, node options with multi-tree mode and a series of runs: the same request under different thread counts (one, some, one per candidate), schedules, pool behaviours and memory-pooling settings, or requests for one to eight best roots. Trees passing between workers are measured in flight; the one written must be the best of them, every candidate has to be tried once, and equal requests must give equal lumps.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			series, big := r.P(0.45), bigKind(i, 60, 1000000)
			if big != "" {
				series = false
			}
			g := genOpt{maxW: []int{2, 3, 4, 5, 6, 7}[r.N(6)]}
			if !series || r.P(0.3) {
				g.hexen, g.tags, g.scroll = 0.15, 0.25, 0.1
			}
			c := &Case{Wads: map[string]*WadSpec{"/w/in.wad": {Items: []ItemSpec{{Level: genLevel(r, "MAP01", g)}}}}, Extra: map[string]string{}}
			o := genOptions(r, optGen{multitree: 1})
			o.HasN, o.N, o.MultiTree = true, fmt.Sprintf("m=%da=%d", 1+r.N(3), r.N(5)), true
			if r.P(0.3) {
				o.N += fmt.Sprintf("p=%d", r.N(3))
			}
			if r.P(0.2) {
				o.N += fmt.Sprintf("i=%d", r.N(3))
			}
			if r.P(0.5) {
				o.N += "c=" + r.Pick("v", "d", "x", "z", "V", "X", "Z")
			}
			o.HasB, o.B = true, r.Pick("-", "-", "o=0", "")
			o.HasR, o.R = true, r.Pick("z", "z", "")
			o.Out = "out.wad"
			o.Det = r.P(0.5)
			var rest []string
			for _, a := range o.Rest {
				if !strings.HasPrefix(a, "--roots") && !strings.HasPrefix(a, "--speedtree") {
					rest = append(rest, a)
				}
			}
			o.Rest = rest
			if big != "" {
				c.Wads["/w/in.wad"].Items[0].Level.setBig(r, "ghost")
				c.Wads["/w/in.wad"].Items[0].Level.Ghost -= r.PickI(0, 0, r.N(12), r.N(40))
				o.N = fmt.Sprintf("m=%da=%dc=%s", 1+r.N(3), r.N(5), r.Pick("v", "v", "V", "D", "X", "Z"))
				o.B, o.R = r.Pick("-", "-", "-", ""), "z"
			}
			if r.P(0.2) {
				o.Rest = append(o.Rest, "--stknode=1")
			}
			set := func(s RunSpec, extra ...string) RunSpec {
				// options go before the input name
				s.Args = append(append([]string{}, extra...), s.Args...)
				return s
			}
			if series {
				c.Extra["mode"] = "series"
				n := r.Range(3, 8)
				for k := 1; k <= n; k++ {
					oo := o
					oo.NT = r.PickI(1, 1, 2, 3, 8)
					c.Runs = append(c.Runs, set(vary(r, oo, fmt.Sprint("roots", k)), fmt.Sprintf("--roots=%d", k), fmt.Sprintf("--speedtree=%d", r.N(2))))
				}
				return []*Case{c}
			}
			var roots []string
			if big != "" {
				roots = []string{fmt.Sprintf("--roots=%d", r.Range(1, 10))}
			} else if r.P(0.4) {
				roots = []string{fmt.Sprintf("--roots=%d", r.Range(1, 14))}
			}
			n := 3 + r.N(3)
			if big != "" {
				n = 2
			}
			for k := 0; k < n; k++ {
				oo := o
				ext := append([]string{}, roots...)
				if r.P(0.7) {
					ext = append(ext, fmt.Sprintf("--speedtree=%d", r.N(2)))
				}
				switch {
				case k == 0:
					oo.NT = 1
				case k == 1:
					oo.NT = 5000 // one thread per candidate
				default:
					oo.NT = r.PickI(0, 2, 3, 4, 5, 8, 16)
				}
				s := set(vary(r, oo, fmt.Sprint("run", k)), ext...)
				if k == 0 {
					s.CPUs, s.Policy, s.Preempt = 1, "fifo", -1
				}
				c.Runs = append(c.Runs, s)
			}
			return []*Case{c}
		},
		Check: func(e *Exec, c *Case) *Violation {
			series := c.Extra["mode"] == "series"
			var ref *lvlData
			var refRank treeRank
			refN := 0
			for i := range c.Runs {
				res := c.do(e, i, func(cf *rt.Config) { cf.Peek = true })
				if v := endsWell(c, i, res); v != nil {
					return v
				}
				if !claimsSuccess(res) {
					return nil
				}
				k := parseCLI(c.Runs[i].Args)
				in, out, err := treeLumps(c, res, k, 0)
				if err != nil {
					return viol("malformed", i, "%v", err)
				}
				sum := treeSumRe.FindStringSubmatch(res.Stdout)
				if sum == nil {
					e.tally.Probe("no trees to build")
					return nil
				}
				n, _ := strconv.Atoi(sum[1])
				if v := checkProgress(i, res.Stdout, n); v != nil {
					return v
				}
				rank, err := rankOf(out)
				if err != nil {
					return viol("malformed", i, "%v", err)
				}
				if v := checkPeeked(e, i, res, n, k, rank); v != nil {
					return v
				}
				plain := !hasSpecials(in) && k.ni == 0 && !in.hexen
				fallback := strings.Contains(res.Stdout, "there are no linedefs of the kind requested")
				if fallback {
					e.tally.Probe("no linedef of the kind asked for")
				}
				if k.roots > 0 {
					if n > k.roots && !fallback {
						return viol("candidates", i, "%d roots were tried, %d asked for", n, k.roots)
					}
				} else if plain {
					want, lines := rootLines(in, k.nm)
					if want == 0 {
						want, lines = rootLines(in, 3)
					}
					if n != want {
						return viol("candidates", i, "%d roots were tried; %d linedefs are eligible and lie on %d different lines", n, lines, want)
					}
					e.tally.Probe("candidates counted")
				}
				if ref == nil {
					ref, refRank, refN = out, rank, n
					continue
				}
				same := true
				for _, x := range bspLumps {
					if !bytes.Equal(ref.raw[x], out.raw[x]) {
						if !series {
							return viol("differs", i, "%s (%d bytes) differs from that of %s (%d bytes): %v instead of %v", x, len(out.raw[x]), c.Runs[0].Label, len(ref.raw[x]), rank, refRank)
						}
						same = false
					}
				}
				if !series {
					if n != refN {
						return viol("candidates", i, "%d roots were tried, %d in %s", n, refN, c.Runs[0].Label)
					}
					continue
				}
				if n < refN || n > refN+1 {
					return viol("candidates", i, "%d roots were tried with %s, %d in the run before", n, c.Runs[i].Args[0], refN)
				}
				if n == refN && !same {
					return viol("series-same", i, "the number of roots tried stays %d but the lumps change", n)
				}
				if !same && !hasSpecials(in) && !in.hexen {
					if d := rank.cmp(refRank); d >= 0 {
						return viol("series-worse", i, "with the root number %d as well, the tree becomes %v instead of %v (subsectors, height difference, height, segs)", n, rank, refRank)
					}
					e.tally.Probe("a later root gives a better tree")
				}
				ref, refRank, refN = out, rank, n
			}
			return nil
		}})
}

// hasSpecials: linedefs that tell the builder how to treat them.
func hasSpecials(l *lvlData) bool {
	for _, x := range l.noseg {
		if x {
			return true
		}
	}
	for _, ln := range l.lines {
		if special(l, ln) || ln.tag >= 900 || ln.special >= 1000 {
			return true
		}
	}
	return hasScrollers(l)
}

// checkPeeked compares the trees that workers delivered with the written one.
func checkPeeked(e *Exec, i int, res *rt.Result, n int, k *cli, rank treeRank) *Violation {
	if len(res.Peeked) == 0 {
		e.tally.Probe("trees not recognised in flight")
		return nil
	}
	// trees that fit the format (for vanilla, without unsigned indices at
	// best) come before those that do not
	fits := func(p rt.Peeked) int {
		switch k.nfmt {
		case 'd', 'x', 'z':
			return 0
		}
		switch {
		case p.Verts > 65536:
			return 2
		case p.Verts > 32768 && (k.nfmt == 'v' || k.nfmt == 0):
			return 1
		}
		return 0
	}
	seen := map[int]int{}
	var best treeRank
	lim, cnt := 3, [3]int{}
	for _, p := range res.Peeked {
		seen[p.ID]++
		r, f := mkRank(p.Precious > 0, p.SSectors, p.HL, p.HR, p.Segs), fits(p)
		cnt[f]++
		if k.ableist {
			f = 0 // the user wants the best tree whether it fits or not
		}
		if f < lim || f == lim && r.cmp(best) < 0 {
			best, lim = r, f
		}
	}
	for id := 0; id < n; id++ {
		if seen[id] != 1 {
			return viol("tries", i, "root number %d of %d was tried %d times", id, n, seen[id])
		}
	}
	if len(seen) != n {
		return viol("tries", i, "%d different roots were tried, %d announced", len(seen), n)
	}
	if cnt[0]+cnt[1] > 0 && cnt[2] > 0 || cnt[0] > 0 && cnt[1] > 0 {
		e.tally.Probe("only some trees fit the format")
	}
	if k.ableist && cnt[2] > 0 {
		return nil // the tree may have been given up
	}
	if lim == 2 {
		switch k.nfmt {
		case 'X', 'Z': // another builder has made the tree
			if !strings.Contains(res.Stdout, "vanilla nodes format overflowed for ALL trees") {
				return viol("overflow", i, "none of %d trees fits the vanilla format, yet Zdoom nodes were not chosen", n)
			}
			e.tally.Probe("no tree fits vanilla, Zdoom nodes instead")
			return nil
		case 'D':
		default:
			if rank.segs != 0 {
				return viol("overflow", i, "none of %d trees fits the vanilla format, yet one with %v was written", n, rank)
			}
			e.tally.Probe("no tree fits vanilla, lumps emptied")
			return nil
		}
	}
	best.bad = 0
	if rank.ss != best.ss || rank.diff != best.diff || rank.max != best.max || rank.segs != best.segs {
		return viol("not-best", i, "the best tree delivered by workers has (subsectors, height difference, height, segs) %v, the one written has %v", best, rank)
	}
	e.tally.Probe("trees measured in flight")
	return nil
}
