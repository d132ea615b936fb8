package main

import (
	"bytes"
	"fmt"
	"strings"

	rt "vsim/simrt"
)

func init() {
	register(&Prop{ID: "C18", Quick: 1500, Thorough: 40000,
		Rule: "Each seed generates a build (three quarters in place), kills it or cuts its power at a point drawn from its own file operations, and runs the same command again on the surviving disk; some second runs are killed as well and followed by a third, some meet a failing operation.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			c, o := faultCase(r, r.P(0.75), r.P(0.1))
			o.Det = true
			base := vary(r, o, "crashed")
			mut := func(x *rt.Op) bool { return ownFile(x) }
			late := func(x *rt.Op) bool {
				return ownFile(x) && (x.Op == "sync" || x.Op == "close" || x.Op == "remove" || x.Op == "rename" || x.Op == "truncate" || x.Path == "/w/in.wad" && x.Op != "pread" && x.Op != "read" || x.Op == "open")
			}
			ref := probeOps(e, c, base)
			if len(ref.Ops) == 0 {
				return nil
			}
			var out []*Case
			for k := 0; k < 4; k++ {
				w := mut
				if r.P(0.7) {
					w = late
				}
				f, ok := drawCrash(r, ref.Ops, r.Pick("kill", "power", "power"), w)
				if !ok {
					continue
				}
				x := c.clone()
				b := base
				b.Faults = []rt.Fault{f}
				if r.P(0.2) { // a failure on the way
					if g, ok := drawFault(r, ref.Ops, late); ok {
						b.Faults = append([]rt.Fault{g}, b.Faults...)
					}
				}
				next := vary(r, o, "again")
				if r.P(0.4) { // the same names for temporary files
					next.Seed = base.Seed
				}
				x.Runs = []RunSpec{b, next}
				x.Seed = r.Next() >> 1
				if r.P(0.35) {
					d := diskOf(x.do(e, 0))
					ops := x.doOn(e, 1, d, wantOps).Ops
					if r.P(0.7) {
						if f, ok := drawCrash(r, ops, r.Pick("kill", "power"), w); ok {
							x.Runs[1].Faults = []rt.Fault{f}
							x.Runs = append(x.Runs, vary(r, o, "third"))
						}
					} else if f, ok := drawFault(r, ops, ownFile); ok {
						x.Runs[1].Faults = []rt.Fault{f}
					}
				}
				out = append(out, x)
			}
			return out
		},
		Check: func(e *Exec, c *Case) *Violation {
			k := parseCLI(c.Runs[0].Args)
			dest := k.outPath()
			orig := c.file("/w/in.wad")
			// what builds of the original, of its result and so on give
			gen := [][]byte{orig}
			build := func(n int) *Violation {
				for len(gen) <= n {
					d := c.disk()
					for i := range d {
						if d[i].Path == "/w/in.wad" {
							d[i].Data = gen[len(gen)-1]
						}
					}
					ref := cleanRun(e, c, 0, d)
					if v := endsWell(c, 0, ref); v != nil {
						return v
					}
					p := dest
					if !claimsSuccess(ref) {
						p = "/w/in.wad"
					}
					gen = append(gen, file(ref, p))
				}
				return nil
			}
			if v := build(1); v != nil {
				return v
			}
			disk := c.disk()
			known := map[string]bool{}
			for _, f := range disk {
				known[f.Path] = true
			}
			for i := range c.Runs {
				before := map[string][]byte{}
				temps := map[string]bool{}
				for _, f := range disk {
					if f.Kind == "" {
						before[f.Path] = f.Data
						if !known[f.Path] && f.Path != dest && f.Path != rptPath {
							temps[f.Path] = true
						}
					}
				}
				res := c.doOn(e, i, disk, wantOps)
				if v := hung(i, res); v != nil {
					return v
				}
				// leftovers of earlier runs stay as they are, unread
				for _, o := range res.Ops {
					if o.Op == "createtemp" || o.Op == "stat" || o.Op == "lstat" { // a name is tried out, exclusively
						continue
					}
					if temps[o.Path] && !strings.Contains(o.Err, "exists") {
						return viol("leftover-used", i, "%s: run %s does %s on %s, a leftover of an earlier run", faultText(c, i), c.Runs[i].Label, o.Op, o.Path)
					}
				}
				for p := range temps {
					if !hasFile(res, p) || !bytes.Equal(file(res, p), before[p]) {
						return viol("leftover-damaged", i, "%s: run %s changed %s, a leftover of an earlier run (%d -> %d bytes)", faultText(c, i), c.Runs[i].Label, p, len(before[p]), len(file(res, p)))
					}
				}
				if len(temps) > 0 {
					e.tally.Probe("leftover temporary file present")
				}
				// which wad did this run start from?
				if v := build(2); v != nil {
					return v
				}
				from := -1
				for n := 0; n < len(gen); n++ {
					if bytes.Equal(before["/w/in.wad"], gen[n]) {
						from = n
						break
					}
				}
				if from >= 0 {
					if v := build(from + 1); v != nil {
						return v
					}
				}
				if !crashed(res) {
					if claimsSuccess(res) {
						if from < 0 {
							return viol("built-from-torn", i, "run %s succeeds on an input which is neither the original nor a finished wad (%d bytes; original %d, result %d)", c.Runs[i].Label, len(before["/w/in.wad"]), len(orig), len(gen[1]))
						}
						got := file(res, dest)
						if !bytes.Equal(got, gen[from+1]) {
							return viol("no-convergence", i, "%s: run %s does not give what an undisturbed build of the same wad gives: %s", faultText(c, i), c.Runs[i].Label, wadDiff(gen[from+1], got))
						}
						if t := tempsOf(res); len(t) > 0 {
							return viol("temp-left", i, "run %s succeeds but leaves %s", c.Runs[i].Label, t[0].Path)
						}
						e.tally.Probe(fmt.Sprintf("run %d converged from generation %d", i, from))
					} else {
						if from >= 0 && len(res.Fired) == 0 && !bytes.Equal(gen[from], gen[from+1]) {
							return viol("refused-intact", i, "run %s fails although its input is intact: %s", c.Runs[i].Label, describe(res))
						}
						if from < 0 {
							if ok(res) || strings.TrimSpace(res.Stderr+res.Msg) == "" {
								return viol("silent-refusal", i, "run %s on a half-written input ends with %s", c.Runs[i].Label, describe(res))
							}
							if !bytes.Equal(file(res, "/w/in.wad"), before["/w/in.wad"]) {
								return viol("torn-touched", i, "run %s refuses the half-written input but changes it", c.Runs[i].Label)
							}
							e.tally.Probe("half-written input refused")
						}
					}
				}
				disk = diskOf(res)
			}
			return nil
		}})
}
