package main

import (
	"bytes"
	"fmt"
	"strings"

	rt "vsim/simrt"
)

func init() {
	register(&Prop{ID: "C19", Quick: 5500, Thorough: 40000,
		Rule: "Each seed generates a wad and a history of two to four in-place builds with options of their own, every run under its own schedule; the last run repeats the options of a fresh build of the original, and every lump of the rebuilt levels must be the same.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			g := genOpt{maxLevels: 2, odd: r.P(0.2), hexen: 0.2, maxW: []int{2, 4, 6}[r.N(3)], scroll: 0.2, tags: 0.2}
			w := genWad(r, g)
			for _, it := range w.Items {
				if it.Level != nil {
					it.Level.Unused = 0 // the extents of the map, these included, matter to REJECT
				}
			}
			c := &Case{Wads: map[string]*WadSpec{"/w/in.wad": w}, Extra: map[string]string{}}
			n := r.Range(2, 4)
			big := bigKind(i, 60, 1000000)
			if big != "" {
				w.oneLevel()
				n = r.Range(2, 3)
			}
			rmb := false
			for k := 0; k < n; k++ {
				o := genOptions(r, optGen{multitree: 0.2, endgoal: 0.2, rejectZ: true, noRebuild: k < n-1})
				o.Det = r.P(0.7)
				if big != "" {
					if k == 0 {
						bigWad(r, c, &o, big)
					} else {
						bigOptions(r, &o, big)
					}
					if k == n-1 && o.B == "-" {
						o.B = "o=0"
					}
				} else if o.HasR && o.R != "-" && !strings.HasPrefix(o.R, "z") && r.P(0.4) {
					if !rmb {
						rmb = withRMB(r, c, &o, r.P(0.3))
					} else {
						o.R += "m"
					}
				}
				if k < n-1 && r.P(0.2) {
					addFilter(r, w, &o)
				}
				if k == n-1 {
					o.Det = true
				}
				c.Runs = append(c.Runs, vary(r, o, fmt.Sprintf("build %d", k)))
			}
			return []*Case{c}
		},
		Check: func(e *Exec, c *Case) *Violation {
			last := len(c.Runs) - 1
			if !parseCLI(c.Runs[last].Args).det {
				return nil
			}
			ref := c.doOn(e, last, c.disk(), func(x *rt.Config) { x.Seed++; x.Trace = nil })
			if v := endsWell(c, last, ref); v != nil {
				return v
			}
			if !claimsSuccess(ref) {
				return nil
			}
			disk := c.disk()
			for i := range c.Runs {
				res := c.doOn(e, i, disk)
				if v := endsWell(c, i, res); v != nil {
					return v
				}
				disk = diskOf(res)
				if i == last {
					if d := lumpDiff(file(ref, "/w/in.wad"), file(res, "/w/in.wad")); d != "" {
						return viol("history", i, "the same build gives another result after %d other builds: %s", last, d)
					}
				}
			}
			return nil
		}})
}

// lumpDiff compares two wads by the sequence of their lumps.
func lumpDiff(a, b []byte) string {
	wa, ea := parseWad(a)
	wb, eb := parseWad(b)
	if ea != nil || eb != nil {
		return fmt.Sprintf("not a wad: %v / %v", ea, eb)
	}
	if len(wa.ents) != len(wb.ents) {
		return fmt.Sprintf("%d / %d lumps", len(wa.ents), len(wb.ents))
	}
	for i := range wa.ents {
		x, y := wa.ents[i], wb.ents[i]
		if x.name != y.name || !bytes.Equal(x.data, y.data) {
			return fmt.Sprintf("lump %d %s/%s differs (%d/%d bytes)", i, x.name, y.name, x.size, y.size)
		}
	}
	return ""
}
