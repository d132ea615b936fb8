package main

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"

	rt "vsim/simrt"
)

const ruleSched = "Wads and command lines are generated from the seed; every run draws its own scheduling policy, preemption rate, CPU count, clock epoch, pool behaviour and map order."

// finished reports whether the run ended the way the program means to end
// (success or an error it reports), and gives a violation otherwise.
func mustEndWell(res *rt.Result, ri int, args []string) *Violation {
	if abnormal(res) {
		return viol("abnormal-"+res.How, ri, "args %s: %s", strings.Join(args, " "), describe(res))
	}
	return nil
}

// allOffsets asks for the exhaustive or heuristic search, on levels small enough.
func allOffsets(r *Rng, w *WadSpec, o *Options) {
	o.B = boRe.ReplaceAllString(o.B, "")
	o.BMode = r.Pick("3", "4")
	o.B = "o=" + o.BMode + o.B
	for _, it := range w.Items {
		if it.Level != nil {
			it.Level.W, it.Level.H = 1+it.Level.W%4, 1
		}
	}
}

var boRe = regexp.MustCompile(`o=[0-9,]+`)

func init() {
	// C01: with -d the output is a function of input and options.
	register(&Prop{ID: "C01", Quick: 1800, Thorough: 12000, MinRuns: 1, Rule: ruleSched + " Every case runs the same command once with a fixed schedule and one CPU and then under further seeded environments; output file, .rpt report and exit status must be identical.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			c := &Case{}
			g := genOpt{maxLevels: 2, odd: r.P(0.3), hexen: 0.15, maxW: []int{3, 5, 7, 9}[r.N(4)], scroll: 0.1, tags: 0.1}
			far, big := r.P(0.04), bigKind(i, 50, 6)
			if big != "" {
				far, g.maxLevels = false, 1
			} else if far {
				g = genOpt{maxLevels: 1, maxW: 4, far: 1}
			}
			w := genWad(r, g)
			o := genOptions(r, optGen{multitree: 0.45, endgoal: 0.3, noRebuild: true, rejectZ: true, hash: 0.05, verbose: 0.1})
			if far {
				o.B = r.Pick("", "s", "s?", "a?", "z=0")
				for _, it := range w.Items {
					if it.Level != nil && r.P(0.8) {
						o.B += fmt.Sprintf("e=%d", it.Level.farGoal())
						break
					}
				}
				o.BMode = ""
			}
			if !far && big == "" && o.B != "-" && r.P(0.012) {
				allOffsets(r, w, &o)
			}
			o.Det = true
			inPlace := r.P(0.2)
			if !inPlace {
				o.Out = "out.wad"
			}
			c.Wads = map[string]*WadSpec{"/w/in.wad": w}
			if r.P(0.3) {
				withOptionFile(r, c, &o, r.P(0.5))
			}
			if far {
				tuneFar(e, r, c, o)
			} else if big != "" {
				bigWad(r, c, &o, big)
			}
			c.Runs = []RunSpec{baseRun(o, "reference")}
			n := 2 + r.N(3)
			for k := 0; k < n; k++ {
				v := o
				if o.HasB && o.B != "-" && r.P(0.5) {
					v.BT = v.bees(r, 0, 1, 2, 3, 7, 16)
				}
				if o.HasN && o.N != "-" && o.MultiTree && r.P(0.6) {
					v.NT = r.PickI(0, 1, 2, 3, 5, 16)
				}
				c.Runs = append(c.Runs, vary(r, v, fmt.Sprint("env", k)))
			}
			return []*Case{c}
		},
		Check: func(e *Exec, c *Case) *Violation {
			ref := c.do(e, 0)
			if v := mustEndWell(ref, 0, c.Runs[0].Args); v != nil {
				return v
			}
			for i := 1; i < len(c.Runs); i++ {
				res := c.do(e, i)
				if v := mustEndWell(res, i, c.Runs[i].Args); v != nil {
					return v
				}
				if res.How != ref.How || res.Exit != ref.Exit {
					return viol("status-differs", i, "reference: %s; %s: %s", describe(ref), c.Runs[i].Label, describe(res))
				}
				for _, p := range allPaths(ref, res) {
					a, b := file(ref, p), file(res, p)
					if !bytes.Equal(a, b) {
						return viol("bytes-differ", i, "%s differs between reference (%s) and %s (%s, %d CPUs): %s", p, strings.Join(c.Runs[0].Args, " "), c.Runs[i].Label, strings.Join(c.Runs[i].Args, " "), c.Runs[i].CPUs, wadDiff(a, b))
					}
				}
			}
			return nil
		}})
}

func allPaths(rs ...*rt.Result) []string {
	m := map[string]bool{}
	for _, r := range rs {
		for _, f := range r.Files {
			if f.Kind == "" {
				m[f.Path] = true
			}
		}
	}
	return sortedKeys(m)
}
