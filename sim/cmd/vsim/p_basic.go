package main

import (
	"fmt"
	"path"
	"strings"

	rt "vsim/simrt"
)

// buildCase draws a wad, options and where the result goes.
func buildCase(r *Rng, g genOpt, og optGen) (*Case, Options) {
	w := genWad(r, g)
	o := genOptions(r, og)
	c := &Case{Wads: map[string]*WadSpec{"/w/in.wad": w}, Extra: map[string]string{}}
	switch k := r.N(10); {
	case k < 6:
		o.Out = "out.wad"
	case k < 7:
		o.Out = "/w/new/out.wad"
		c.Files = append(c.Files, rt.FileSpec{Path: "/w/new", Kind: "dir"})
	case k < 8:
		o.Out = "out.wad"
		c.Files = append(c.Files, rt.FileSpec{Path: "/w/out.wad", Data: junkBytes(r, r.PickI(0, 5, 500, 60000))})
	}
	if og.filter && r.P(0.3) {
		addFilter(r, w, &o)
	}
	if og.eject && o.Out != "" && r.P(0.2) {
		o.Rest = append(o.Rest, "--eject")
	}
	return c, o
}

// addFilter limits the build to some levels.
func addFilter(r *Rng, w *WadSpec, o *Options) {
	names := w.LevelNames()
	var pick []string
	for _, n := range names {
		if r.P(0.5) {
			if r.P(0.2) {
				n = strings.ToLower(n)
			}
			pick = append(pick, n)
		}
	}
	if len(pick) == 0 || r.P(0.2) {
		pick = append(pick, r.Pick(names...))
	}
	o.Rest = append(o.Rest, r.Pick("-m:", "-m:", "-!m:")+strings.Join(pick, "+"))
}

func (c *Case) abs(p string) string {
	if path.IsAbs(p) {
		return path.Clean(p)
	}
	return path.Join("/w", p)
}

func junkBytes(r *Rng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Next())
	}
	return b
}

// endsWell: a fault-free run on a proper wad has to succeed.
func endsWell(c *Case, i int, res *rt.Result) *Violation {
	if ok(res) {
		if strings.Contains(res.Stdout, "successfully written") {
			return nil
		}
		return viol("no-success", i, "run %s ended with status 0 without reporting success: %s", c.Runs[i].Label, describe(res))
	}
	if res.How == "exit" && (strings.Contains(res.Stdout+res.Stderr, "Unable to find any levels") || strings.Contains(res.Stdout+res.Stderr, "No lumps - terminating")) {
		return nil
	}
	return viol("failed", i, "run %s on a proper wad ended with %s", c.Runs[i].Label, describe(res))
}

func nothingToDo(res *rt.Result) bool { return !claimsSuccess(res) }

// perLevel calls f for every rebuilt level of a successful run.
func perLevel(c *Case, res *rt.Result, args []string, f func(in, out *lvlData, k *cli) error) error {
	k := parseCLI(args)
	inb := c.file("/w/in.wad")
	in, err := parseWad(inb)
	if err != nil {
		return nil
	}
	out, err := parseWad(file(res, k.outPath()))
	if err != nil {
		return fmt.Errorf("output is not a well-formed wad: %v", err)
	}
	ents, levels := expected(in, k)
	if len(ents) != len(out.ents) {
		return fmt.Errorf("output has %d entries, expected %d", len(out.ents), len(ents))
	}
	for _, l := range levels {
		if err := f(inLvl(in, l), outLvl(out, l), k); err != nil {
			return fmt.Errorf("level %s: %v", l.name, err)
		}
	}
	return nil
}

func manyRuns(r *Rng, c *Case, o Options, n int) {
	for i := 0; i < n; i++ {
		oo := o
		if r.P(0.4) {
			oo.BT = oo.bees(r, r.Range(1, 9))
		}
		if r.P(0.4) && oo.MultiTree {
			oo.NT = r.Range(1, 9)
		}
		c.Runs = append(c.Runs, vary(r, oo, fmt.Sprintf("run%d", i)))
	}
}

func init() {
	register(&Prop{ID: "C03", Quick: 4000, Thorough: 20000,
		Rule: "Each seed generates a wad (levels with missing, duplicate, misordered, foreign lumps, odd layouts), options and three schedules; the output of each is compared entry by entry with the directory and contents the input prescribes.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			c, o := buildCase(r, genOpt{maxLevels: 3, maxW: 5, odd: true, hexen: 0.25, scroll: 0.1, tags: 0.1}, optGen{multitree: 0.08, endgoal: 0.2, noRebuild: true, rejectZ: true, filter: true, eject: true, hash: 0.1, verbose: 0.1})
			o.Det = r.P(0.5)
			if r.P(0.08) {
				for _, it := range c.Wads["/w/in.wad"].Items {
					if it.Level != nil && r.P(0.6) {
						it.Level.Zero = append(it.Level.Zero, r.Pick("SECTORS", "SIDEDEFS", "THINGS", "LINEDEFS", "VERTEXES"))
					}
				}
			}
			if r.P(0.2) {
				withRMB(r, c, &o, r.P(0.5))
				if r.P(0.1) {
					to := "/w/in.wad"
					if o.Out != "" && r.P(0.7) {
						to = c.abs(o.Out)
					}
					aliasReport(r, c, to, "/w/in.wad")
				}
			}
			manyRuns(r, c, o, 3)
			return []*Case{c}
		},
		Check: func(e *Exec, c *Case) *Violation {
			for i := range c.Runs {
				res := c.do(e, i)
				if v := endsWell(c, i, res); v != nil {
					return v
				}
				k := parseCLI(c.Runs[i].Args)
				if nothingToDo(res) {
					in, err := parseWad(c.file("/w/in.wad"))
					if err == nil {
						if _, lv := expected(in, k); len(lv) > 0 {
							return viol("not-built", i, "%d levels can be rebuilt but the program says otherwise: %s", len(lv), describe(res))
						}
					}
					continue
				}
				if err := checkStructure(c.file("/w/in.wad"), file(res, k.outPath()), k); err != nil {
					return viol("structure", i, "%v", err)
				}
			}
			return nil
		}})
	register(&Prop{ID: "C13", Quick: 4000, Thorough: 25000,
		Rule: "Each seed generates a wad, blockmap options and three schedules with different worker counts; every BLOCKMAP written is parsed and compared with the level's linedefs block by block.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			c, o := buildCase(r, genOpt{maxLevels: 2, maxW: 7, hexen: 0.15, scroll: 0.3, tags: 0.2}, optGen{endgoal: 0.3, formats: "vx"})
			if r.P(0.5) {
				o.N = "-"
			}
			o.Det = r.P(0.4)
			manyRuns(r, c, o, 3)
			return []*Case{c}
		},
		Check: func(e *Exec, c *Case) *Violation {
			for i := range c.Runs {
				res := c.do(e, i)
				if v := endsWell(c, i, res); v != nil {
					return v
				}
				if nothingToDo(res) {
					continue
				}
				if err := perLevel(c, res, c.Runs[i].Args, func(in, out *lvlData, k *cli) error { return checkBlockmap(out, k) }); err != nil {
					return viol("blockmap", i, "%v", err)
				}
			}
			return nil
		}})
	register(&Prop{ID: "C14", Quick: 3000, Thorough: 25000,
		Rule: "Each seed generates a wad, node options and three schedules; the level lumps of every output are parsed and checked against each other and against the input geometry.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			g := genOpt{maxLevels: 2, maxW: 7, hexen: 0.25, scroll: 0.2, tags: 0.2}
			big := bigKind(i, 36, 6)
			if big != "" {
				g.maxLevels = 1
			}
			c, o := buildCase(r, g, optGen{multitree: 0.2, endgoal: 0.1})
			o.Det = r.P(0.4)
			if big != "" {
				bigWad(r, c, &o, big)
				tunePosts(e, r, c, o)
				manyRuns(r, c, o, 1)
				return []*Case{c}
			}
			if i%15 == 11 {
				for _, it := range c.Wads["/w/in.wad"].Items {
					if it.Level != nil && r.P(0.7) {
						it.Level.setLong(r)
					}
				}
				o.HasB, o.B, o.BT = true, "-", 0 // (the blockmap would be too large)
				manyRuns(r, c, o, 2)
				return []*Case{c}
			}
			manyRuns(r, c, o, 3)
			return []*Case{c}
		},
		Check: func(e *Exec, c *Case) *Violation {
			for i := range c.Runs {
				res := c.do(e, i)
				if v := endsWell(c, i, res); v != nil {
					return v
				}
				if nothingToDo(res) {
					continue
				}
				if err := perLevel(c, res, c.Runs[i].Args, func(in, out *lvlData, k *cli) error {
					given, err := checkLevel(in, out, k, res.Stdout+res.Stderr)
					if given {
						e.tally.Probe("nodes given up because of " + k.fmtName() + " limits")
					}
					return err
				}); err != nil {
					return viol("level", i, "%v", err)
				}
			}
			return nil
		}})
}
