package main

import (
	"regexp"
	"strings"
)

// ---------------------------------------------------------------- data races

type raceRep struct {
	sig  string // the two places that conflict
	text string
}

var (
	raceAccRe = regexp.MustCompile(`^(Read|Write|Previous read|Previous write) at 0x[0-9a-f]+ by (.*):$`)
	frameRe   = regexp.MustCompile(`^  ([^\s].*)\(.*\)$`)
)

// racesOf parses what the race detector reported about a run.
func racesOf(s string) []raceRep {
	var out []raceRep
	for _, blk := range strings.Split(s, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		var sites []string
		own := false
		lines := strings.Split(blk, "\n")
		for i, l := range lines {
			m := raceAccRe.FindStringSubmatch(strings.TrimSpace(l))
			if m == nil {
				continue
			}
			kind := "write"
			if strings.HasSuffix(strings.ToLower(m[1]), "read") {
				kind = "read"
			}
			site := "?"
			for j := i + 1; j+1 < len(lines) && strings.HasPrefix(lines[j], "  "); j += 2 {
				f := frameRe.FindStringSubmatch(lines[j])
				if f == nil {
					break
				}
				name := f[1][strings.LastIndexByte(f[1], '/')+1:]
				if strings.HasPrefix(name, "runtime.") || strings.HasPrefix(name, "verifsimrt.raceReadRange") || strings.HasPrefix(name, "verifsimrt.raceWriteRange") {
					continue
				}
				if strings.HasPrefix(name, "verifsimrt.") || strings.HasPrefix(name, "fmt.") {
					own = true // the simulator's state, or fmt's, whose pool the simulator hides
				}
				site = strings.TrimPrefix(name, "main.")
				break
			}
			sites = append(sites, kind+" in "+site)
		}
		if own {
			continue
		}
		if len(sites) == 2 && sites[0] > sites[1] {
			sites[0], sites[1] = sites[1], sites[0]
		}
		out = append(out, raceRep{strings.Join(sites, " / "), strings.TrimSpace(blk)})
	}
	return out
}

func init() {
	register(&Prop{ID: "C17", Quick: 700, Thorough: 12000, Race: true,
		Rule: "Each seed generates wads and a command line that keeps as many workers busy as possible; the program is built with the happens-before checker, the simulated channels, mutexes and wait groups supply exactly the program's own ordering, and every schedule is checked for a pair of conflicting accesses that nothing orders.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			g := genOpt{maxLevels: 4, maxW: []int{2, 3, 5, 7}[r.N(4)], odd: r.P(0.2), hexen: 0.2, scroll: 0.25, tags: 0.2}
			c, o := buildCase(r, g, optGen{multitree: 0.35, endgoal: 0.3, noRebuild: true, rejectZ: true, filter: true, eject: true, hash: 0.2, verbose: 0.3})
			o.Det = r.P(0.4)
			if r.P(0.5) {
				if r.P(0.6) {
					withOptionFile(r, c, &o, r.P(0.5))
				} else {
					withNoprocess(r, c, &o)
				}
			}
			manyRuns(r, c, o, 2)
			for k := range c.Runs { // long runs are cut off: the accesses up to there count
				c.Runs[k].MaxTicks = 8000000
			}
			return []*Case{c}
		},
		Check: func(e *Exec, c *Case) *Violation {
			for i := range c.Runs {
				res := c.do(e, i)
				if res.How == "stepcap" {
					e.tally.Probe("cut off after 8 million statements")
				} else if v := endsWell(c, i, res); v != nil {
					return v
				}
				for _, x := range racesOf(res.Stderr2) {
					return viol("race", i, "%s\n%s", x.sig, x.text)
				}
			}
			return nil
		}})
}
