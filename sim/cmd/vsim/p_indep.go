package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	rt "vsim/simrt"
)

// levelSpan returns the input entries a level consists of, marker included.
func levelSpan(x *expLevel) (first, past int) {
	first = 1 << 30
	for _, is := range x.lumps {
		for _, i := range is {
			if i-1 < first {
				first = i - 1
			}
			if i+1 > past {
				past = i + 1
			}
		}
	}
	return
}

// withoutFilter drops -m options and --eject from a command line.
func withoutFilter(args []string) []string {
	var out []string
	for _, a := range args {
		if strings.HasPrefix(a, "-m:") || strings.HasPrefix(a, "-!m:") || a == "--eject" {
			continue
		}
		out = append(out, a)
	}
	return out
}

func init() {
	register(&Prop{ID: "C09", Quick: 2500, Thorough: 12000,
		Rule: "Each seed generates a wad of two to seven levels and a command line; the wad is built under seeded schedules, and each of its levels is built alone with a fixed schedule and one CPU; a further run builds the same levels in another order. The lumps of a level must be the same everywhere.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			maxW := []int{2, 3, 5, 7}[r.N(4)]
			if bigKind(i, 50, 6) != "" {
				maxW = 3
			}
			g := genOpt{maxLevels: 7, maxW: maxW, odd: r.P(0.3), hexen: 0.25, scroll: 0.2, tags: 0.2}
			c, o := buildCase(r, g, optGen{multitree: 0.2, endgoal: 0.2, noRebuild: true, rejectZ: true, filter: true, hash: 0.1, verbose: 0.1})
			o.Det = r.P(0.75)
			if big := bigKind(i, 50, 6); big != "" {
				bigAmong(r, c, &o, big)
			} else if r.P(0.4) {
				withRMB(r, c, &o, r.P(0.3))
			}
			manyRuns(r, c, o, 1+r.N(2))
			return []*Case{c}
		},
		Check: func(e *Exec, c *Case) *Violation {
			in, err := parseWad(c.file("/w/in.wad"))
			if err != nil {
				return nil
			}
			k := parseCLI(c.Runs[0].Args)
			_, lv := expected(in, k)
			if len(lv) == 0 {
				return nil
			}
			single := make([]map[string][]byte, len(lv))
			alone := func(x *expLevel) (map[string][]byte, *Violation) {
				a, z := levelSpan(x)
				d := c.clone()
				d.setFile("/w/in.wad", packWad(in.magic, in.ents[a:z]))
				args := withoutFilter(c.Runs[0].Args)
				d.Runs = []RunSpec{{Label: "alone", Args: args, MaxTicks: c.Runs[0].MaxTicks, CPUs: 1, Seed: 1, Policy: "fifo", Preempt: -1, Pool: "keep"}}
				res := cleanRun(e, d, 0, d.disk())
				if v := endsWell(d, 0, res); v != nil {
					v.Msg = "level " + x.name + " alone: " + v.Msg
					return nil, v
				}
				if !claimsSuccess(res) {
					return nil, viol("alone", 0, "level %s alone is not built: %s", x.name, describe(res))
				}
				return lumpsOf(d.file("/w/in.wad"), res, parseCLI(args), 0, x.name)
			}
			for i, x := range lv {
				m, v := alone(x)
				if v != nil {
					return v
				}
				single[i] = m
			}
			compare := func(i int, what string, inb []byte, res *rt.Result, args []string, order []int) *Violation {
				for pos, li := range order {
					got, v := lumpsOf(inb, res, parseCLI(args), pos, lv[li].name)
					if v != nil {
						v.Run = i
						return v
					}
					if strings.Join(sortedKeys(got), " ") != strings.Join(sortedKeys(single[li]), " ") {
						return viol("lumps-differ", i, "%s: level %s has lumps %v, alone %v", what, lv[li].name, sortedKeys(got), sortedKeys(single[li]))
					}
					for _, n := range sortedKeys(got) {
						if n == "BLOCKMAP" && k.b && !k.det {
							continue // any of the equally good offsets may win
						}
						if !bytes.Equal(got[n], single[li][n]) {
							return viol("level-differs", i, "%s: %s of level %s (number %d) differs from what the level gives alone: %d and %d bytes", what, n, lv[li].name, pos+1, len(got[n]), len(single[li][n]))
						}
					}
					if pos > 0 {
						e.tally.Probe("levels after another compared")
					}
				}
				return nil
			}
			ident := make([]int, len(lv))
			for i := range ident {
				ident[i] = i
			}
			for i := range c.Runs {
				res := c.do(e, i)
				if v := endsWell(c, i, res); v != nil {
					return v
				}
				if v := compare(i, c.Runs[i].Label, c.file("/w/in.wad"), res, c.Runs[i].Args, ident); v != nil {
					return v
				}
			}
			// the same levels in another order
			if len(lv) > 1 {
				r := NewRng(c.Runs[0].Seed, "order")
				order := append([]int(nil), ident...)
				sort.Slice(order, func(a, b int) bool { return order[a] > order[b] })
				if r.P(0.5) {
					for i := len(order) - 1; i > 0; i-- {
						j := r.N(i + 1)
						order[i], order[j] = order[j], order[i]
					}
				}
				var ents []dirEnt
				for _, li := range order {
					a, z := levelSpan(lv[li])
					ents = append(ents, in.ents[a:z]...)
				}
				d := c.clone()
				inb := packWad(in.magic, ents)
				d.setFile("/w/in.wad", inb)
				args := withoutFilter(c.Runs[0].Args)
				d.Runs[0].Args = args
				res := d.doOn(e, 0, d.disk())
				if v := endsWell(d, 0, res); v != nil {
					return v
				}
				if v := compare(0, fmt.Sprintf("order %v", order), inb, res, args, order); v != nil {
					return v
				}
				e.tally.Probe("order permuted")
			}
			return nil
		}})
}

// lumpsOf returns the lumps of the level built as number li.
func lumpsOf(inb []byte, res *rt.Result, k *cli, li int, name string) (map[string][]byte, *Violation) {
	in, err := parseWad(inb)
	if err != nil {
		fail("input: %v", err)
	}
	out, err := parseWad(file(res, k.outPath()))
	if err != nil {
		return nil, viol("malformed", 0, "output: %v", err)
	}
	ents, lv := expected(in, k)
	if li >= len(lv) || lv[li].name != name || len(ents) != len(out.ents) {
		return nil, viol("structure", 0, "level %s is not where it belongs: %s", name, dirNames(out))
	}
	m := map[string][]byte{}
	for n, i := range lv[li].outIdx {
		if out.ents[i].name != n {
			return nil, viol("structure", 0, "entry %d is %s, expected %s", i, out.ents[i].name, n)
		}
		m[n] = out.ents[i].data
	}
	return m, nil
}
