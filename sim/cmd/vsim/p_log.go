package main

import (
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	rt "vsim/simrt"
)

// ---------------------------------------------------------------- progress output

type logLine struct {
	err  bool
	text string
}

// logOf splits what a run printed into lines, in the order of printing.
func logOf(res *rt.Result) []logLine {
	var out []logLine
	b := string(res.Both)
	var part [3]string
	flush := func(k int, all bool) {
		for {
			i := strings.IndexByte(part[k], '\n')
			if i < 0 {
				break
			}
			out = append(out, logLine{k == 2, strings.TrimRight(part[k][:i], " \r")})
			part[k] = part[k][i+1:]
		}
		if all && part[k] != "" {
			out = append(out, logLine{k == 2, part[k]})
			part[k] = ""
		}
	}
	for i := 0; i < len(b); {
		k := int(b[i])
		j := i + 1
		for j < len(b) && b[j] != 1 && b[j] != 2 {
			j++
		}
		if k == 1 || k == 2 {
			part[k] += b[i+1 : j]
			flush(k, false)
		}
		i = j
	}
	flush(1, true)
	flush(2, true)
	return out
}

var (
	levelLineRe = regexp.MustCompile(`^Processing level (\S+):$`)
	durRe       = regexp.MustCompile(`\b([0-9.]+(ns|µs|ms|s|m|h))+`)
	lumpRe      = regexp.MustCompile(`^Lump #([0-9]+) \((\w+)\)(.*?) has its size set to ([0-9]+) bytes\.(?: \(HASH: (\S+)\))?$`)
	zeroRe      = regexp.MustCompile(`^Lump number ([0-9]+) \((\w+)\) has its size set to ([0-9]+) bytes\.$`)
	cpusRe      = regexp.MustCompile(`(will use|threads for multi-tree to) [0-9]+( CPUs|,)`)
	sectorsRe   = regexp.MustCompile(`\(sectors ([0-9,]+)\)`)
	treesRe     = regexp.MustCompile(`^Finished processing trees \(([0-9]+) out of ([0-9]+)`)
)

// sections cuts a log into what comes before the first level, the levels, and
// what follows the success message.
func sections(ls []logLine) (names []string, parts [][]logLine) {
	names = []string{"(before the levels)"}
	parts = [][]logLine{nil}
	for _, l := range ls {
		if m := levelLineRe.FindStringSubmatch(l.text); m != nil && !l.err {
			names = append(names, m[1])
			parts = append(parts, nil)
		} else if strings.HasSuffix(l.text, "successfully written") || strings.HasPrefix(l.text, "Written report file") || strings.HasPrefix(l.text, "Total time:") {
			if names[len(names)-1] != "(end)" {
				names = append(names, "(end)")
				parts = append(parts, nil)
			}
		}
		k := len(parts) - 1
		parts[k] = append(parts[k], l)
	}
	return
}

// normal removes from a line what may depend on time, machine and schedule.
func normal(l string, k *cli) string {
	l = durRe.ReplaceAllString(l, "T")
	l = cpusRe.ReplaceAllString(l, "$1 N$2")
	// a set of sectors, listed in no particular order
	if m := sectorsRe.FindStringSubmatchIndex(l); m != nil {
		ids := strings.Split(l[m[2]:m[3]], ",")
		sort.Strings(ids)
		l = l[:m[2]] + strings.Join(ids, ",") + l[m[3]:]
	}
	if i := strings.Index(l, "/w/tmp"); i >= 0 && strings.HasSuffix(l, "successfully written") {
		l = l[:i] + "/w/tmpN successfully written"
	}
	return l
}

// variable: lines whose number or content legitimately depends on the schedule.
func variable(l string, k *cli, ref, other *cli) bool {
	switch {
	case strings.HasPrefix(l, "Limiting number of threads for multi-tree"):
		return true // only said when more were asked for
	case k.be != 0 && (strings.HasPrefix(l, "Blockmap generator:") || strings.HasPrefix(l, "Found blockmap that is within") || strings.HasPrefix(l, "Backtracking")):
		return true
	}
	return false
}

func init() {
	register(&Prop{ID: "C10", Quick: 2500, Thorough: 20000,
		Rule: "Each seed generates a wad of one to five levels and a command line; the log of every seeded schedule is compared, level by level, with the log of a fixed schedule, and the sizes and hashes it states with the output file.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			g := genOpt{maxLevels: 5, maxW: []int{2, 3, 5}[r.N(3)], odd: r.P(0.2), hexen: 0.2, scroll: 0.2, tags: 0.2}
			c, o := buildCase(r, g, optGen{multitree: 0.2, endgoal: 0.15, noRebuild: true, rejectZ: true, filter: true, eject: true, hash: 0.5, verbose: 0.5})
			o.Det = r.P(0.7)
			if big := bigKind(i, 100, 8); big != "" {
				c.Wads["/w/in.wad"].oneLevel()
				bigWad(r, c, &o, big)
			} else if r.P(0.3) {
				if r.P(0.5) {
					withOptionFile(r, c, &o, r.P(0.5))
				} else {
					withNoprocess(r, c, &o)
				}
			}
			manyRuns(r, c, o, 2+r.N(3))
			return []*Case{c}
		},
		Check: func(e *Exec, c *Case) *Violation {
			base := c.clone()
			base.Runs[0].CPUs, base.Runs[0].Seed, base.Runs[0].Policy, base.Runs[0].Preempt, base.Runs[0].Pool = 2, 1, "fifo", -1, "keep"
			ref := cleanRun(e, base, 0, nil)
			if v := endsWell(c, 0, ref); v != nil {
				return v
			}
			if !claimsSuccess(ref) {
				return nil
			}
			k := parseCLI(c.Runs[0].Args)
			rn, rp := sections(logOf(ref))
			for i := range c.Runs {
				res := c.do(e, i)
				if v := endsWell(c, i, res); v != nil {
					return v
				}
				ki := parseCLI(c.Runs[i].Args)
				if v := checkLumpLines(c, i, ki, res); v != nil {
					return v
				}
				n, p := sections(logOf(res))
				if strings.Join(n, " ") != strings.Join(rn, " ") {
					return viol("levels", i, "levels announced: %v, expected %v", n, rn)
				}
				for s := range p {
					a, b := lineSet(rp[s], k), lineSet(p[s], ki)
					if d := diffSets(a, b); d != "" {
						return viol("lines", i, "%s: %s", n[s], d)
					}
				}
				if len(n) > 3 {
					e.tally.Probe("several levels compared")
				}
			}
			return nil
		}})
}

func lineSet(ls []logLine, k *cli) []string {
	var out []string
	for _, l := range ls {
		if l.text == "" || variable(l.text, k, nil, nil) {
			continue
		}
		t := normal(l.text, k)
		// with a free choice among equally good blockmaps and with -d off, what
		// is said about the chosen one is free as well
		if !k.det && (strings.HasPrefix(t, "Blockmap offset:") || strings.HasPrefix(t, "Blockmap: largest block offset") || strings.HasPrefix(t, "Blockmap: ") || strings.HasPrefix(t, "  (blockmap production")) {
			continue
		}
		if !k.det {
			if m := lumpRe.FindStringSubmatch(t); m != nil && m[2] == "BLOCKMAP" {
				t = "Lump BLOCKMAP"
			}
		}
		if l.err {
			t = "stderr: " + t
		}
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

// diffSets describes how multiset b differs from a.
func diffSets(a, b []string) string {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	var s []string
	for _, x := range sortedKeys(m) {
		switch {
		case m[x] > 0:
			s = append(s, fmt.Sprintf("missing (%d) %q", m[x], x))
		case m[x] < 0:
			s = append(s, fmt.Sprintf("surplus (%d) %q", -m[x], x))
		}
	}
	if len(s) > 6 {
		s = append(s[:6], "...")
	}
	return strings.Join(s, "; ")
}

// checkLumpLines compares the sizes and hashes printed with the output.
func checkLumpLines(c *Case, i int, k *cli, res *rt.Result) *Violation {
	out, err := parseWad(file(res, k.outPath()))
	if err != nil {
		return viol("malformed", i, "%v", err)
	}
	in, err := parseWad(c.file("/w/in.wad"))
	if err != nil {
		return nil
	}
	ents, levels := expected(in, k)
	seen := map[int]int{}
	cur := -1
	for _, l := range logOf(res) {
		if m := levelLineRe.FindStringSubmatch(l.text); m != nil && !l.err {
			cur++
			if cur >= len(levels) || levels[cur].name != m[1] {
				return viol("levels", i, "level %s is announced as number %d, expected %d levels", m[1], cur, len(levels))
			}
			continue
		}
		name, hash := "", ""
		n, size := 0, 0
		if m := lumpRe.FindStringSubmatch(l.text); m != nil {
			n, _ = strconv.Atoi(m[1])
			name, hash = m[2], m[5]
			size, _ = strconv.Atoi(m[4])
			if k.hash && hash == "" {
				return viol("no-hash", i, "no hash in %q", l.text)
			}
		} else if m := zeroRe.FindStringSubmatch(l.text); m != nil {
			n, _ = strconv.Atoi(m[1])
			name = m[2]
			size, _ = strconv.Atoi(m[3])
		} else {
			continue
		}
		if n >= len(out.ents) || out.ents[n].name != name {
			return viol("wrong-entry", i, "%q does not match the output directory", l.text)
		}
		if ents[n].level != cur {
			return viol("wrong-level", i, "%q is printed while level number %d is processed, the lump belongs to level number %d", l.text, cur, ents[n].level)
		}
		if out.ents[n].size != size {
			return viol("wrong-size", i, "%q: the lump has %d bytes", l.text, out.ents[n].size)
		}
		if hash != "" {
			s := sha256.Sum256(out.ents[n].data)
			if w := base64.StdEncoding.EncodeToString(s[:]); w != hash {
				return viol("wrong-hash", i, "%q: the lump's hash is %s", l.text, w)
			}
		}
		seen[n]++
	}
	for n, x := range ents {
		if x.level < 0 {
			continue
		}
		must := x.kind != "copy"
		if x.kind == "linedefs" {
			must = true
		}
		switch {
		case seen[n] > 1:
			return viol("lump-twice", i, "entry %d (%s) is reported %d times", n, x.name, seen[n])
		case must && seen[n] == 0:
			return viol("lump-lost", i, "entry %d (%s) of level %s is written but not reported", n, x.name, levels[x.level].name)
		}
	}
	return nil
}
