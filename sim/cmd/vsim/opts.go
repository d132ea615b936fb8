package main

import (
	"fmt"
	"strings"
)

// Options is a structured command line, so that single settings (threads) can
// be varied without touching the rest.
type Options struct {
	Ticks         int64  // runs may take so long (0: the usual)
	B, N, R       string // parameter strings without threads; "-" = do not rebuild; "" with flag false = absent
	HasB, HasN    bool
	HasR          bool
	BT, NT        int // explicit thread counts, 0 = absent
	Det           bool
	Rest          []string
	In, Out       string
	MultiTree     bool
	Endgoal       int
	BMode         string // o= value, "" default
	NoThreadsAuto bool
}

func (o Options) Args() []string {
	var a []string
	if o.HasB {
		s := "-b" + o.B
		if o.BT > 0 && o.B != "-" {
			s += fmt.Sprintf("t=%d", o.BT)
		}
		a = append(a, s)
	}
	if o.Det {
		a = append(a, "-d")
	}
	if o.HasN {
		s := "-n" + o.N
		if o.NT > 0 && o.N != "-" {
			s += fmt.Sprintf("t=%d", o.NT)
		}
		a = append(a, s)
	}
	if o.HasR {
		a = append(a, "-r"+o.R)
	}
	a = append(a, o.Rest...)
	a = append(a, o.In)
	if o.Out != "" {
		a = append(a, "-o", o.Out)
	}
	return a
}

func (o Options) String() string { return strings.Join(o.Args(), " ") }

type optGen struct {
	multitree float64
	endgoal   float64
	noRebuild bool // allow -b-, -n-, -r-
	rejectZ   bool
	formats   string // node formats to draw from
	big       bool   // allow offset modes 3 and 4
	hash      float64
	verbose   float64
	blockOnly bool
	filter    bool
	eject     bool
}

func genOptions(r *Rng, g optGen) Options {
	var o Options
	o.In = "in.wad"
	// blockmap
	o.HasB = true
	if g.noRebuild && r.P(0.1) {
		o.B = "-"
	} else {
		switch k := r.N(12); {
		case k < 5:
		case k < 6:
			o.BMode = "0"
		case k < 7:
			o.BMode = "1"
		case k < 8:
			o.BMode = fmt.Sprintf("%d,%d", r.N(128), r.N(128))
		default:
			o.BMode = "2"
		}
		if o.BMode != "" {
			o.B += "o=" + o.BMode
		}
		if r.P(0.4) {
			o.B += r.Pick("s", "s?", "a", "a?")
		}
		if r.P(0.3) {
			o.B += fmt.Sprintf("z=%d", r.N(3))
		}
		if r.P(g.endgoal) {
			o.Endgoal = 1 + r.N(2)
			o.B += fmt.Sprintf("e=%d", o.Endgoal)
		}
		if r.P(0.1) {
			o.B += "r"
		}
	}
	// nodes
	o.HasN = true
	if g.noRebuild && r.P(0.08) {
		o.N = "-"
	} else {
		if r.P(0.8) {
			o.N += fmt.Sprintf("a=%d", r.N(5))
		}
		if r.P(0.3) {
			o.N += fmt.Sprintf("p=%d", r.N(3))
		}
		if r.P(0.3) {
			o.N += fmt.Sprintf("i=%d", r.N(3))
		}
		if r.P(0.2) {
			o.N += fmt.Sprintf("f=%d", r.Range(1, 60))
		}
		if r.P(0.15) {
			o.N += fmt.Sprintf("d=%d", r.N(60))
		}
		f := g.formats
		if f == "" {
			f = "vvvdxzVDXZ"
		}
		if r.P(0.6) {
			o.N += "c=" + string(f[r.N(len(f))])
		}
		if r.P(g.multitree) {
			o.MultiTree = true
			o.N += fmt.Sprintf("m=%d", 1+r.N(3))
		}
	}
	o.HasR = true
	switch k := r.N(10); {
	case g.noRebuild && k == 0:
		o.R = "-"
	case g.rejectZ && k == 1:
		o.R = "z"
	default:
		if r.P(0.3) {
			o.R += r.Pick("g", "g-")
		}
		if r.P(0.5) {
			o.R += fmt.Sprintf("s=%d", r.N(4))
		}
	}
	if r.P(0.1) {
		o.Rest = append(o.Rest, "--nosymm")
	}
	if o.MultiTree {
		if r.P(0.5) {
			o.Rest = append(o.Rest, fmt.Sprintf("--speedtree=%d", r.N(2)))
		}
		if r.P(0.3) {
			o.Rest = append(o.Rest, fmt.Sprintf("--roots=%d", r.Range(1, 12)))
		}
		if r.P(0.2) {
			o.Rest = append(o.Rest, "--ableist")
		}
	} else if r.P(0.12) {
		o.Rest = append(o.Rest, "--stknode=1")
	}
	if o.N != "-" && r.P(0.1) {
		o.Rest = append(o.Rest, "--unreversenodes")
	}
	if o.N != "-" && r.P(0.06) {
		z := "--zenvar:"
		switch r.N(6) {
		case 0: // the same variable twice
			z += fmt.Sprintf("%s=%d,%s=%d", r.Pick("x1", "x3", "X2"), r.N(60), r.Pick("X1", "X3", "x2"), r.N(60))
			if r.P(0.7) {
				z = fmt.Sprintf("--zenvar:x%[1]d=%d,X%[1]d=%d", r.Range(1, 4), r.N(9), r.Range(20, 90))
			}
		case 1:
			z += fmt.Sprintf("x1=0,x2=%d", -1-r.N(5))
		default:
			for k := r.Range(1, 4); k > 0; k-- {
				z += fmt.Sprintf("%s%d=%d", r.Pick("x", "y", "X", "Y"), 1+r.N(4), r.PickI(0, 1, r.N(60), -r.N(9)))
				if k > 1 {
					z += ","
				}
			}
		}
		o.Rest = append(o.Rest, z)
		if r.P(0.9) { // the only partitioner which the variables mean something to
			for a := 0; a < 5; a++ {
				o.N = strings.ReplaceAll(o.N, fmt.Sprintf("a=%d", a), "")
			}
			o.N += "a=4"
		}
	}
	if o.N != "-" && r.P(0.05) {
		o.N += fmt.Sprintf("w=%d", r.PickI(0, 2, 3, 7))
	}
	if o.N != "-" && r.P(0.05) {
		o.N += fmt.Sprintf("r=%d", r.Range(1, 4))
	}
	if r.P(0.15) {
		o.Rest = append(o.Rest, fmt.Sprintf("--sidecache=%d", r.N(3)))
	}
	if r.P(0.15) {
		o.Rest = append(o.Rest, fmt.Sprintf("--detailnodes=%d", r.N(4)))
	}
	if r.P(g.hash) {
		o.Rest = append(o.Rest, "--hashlump")
	}
	if r.P(g.verbose) {
		o.Rest = append(o.Rest, r.Pick("-v", "-vv", "-vvv"))
	}
	return o
}

var policyNames = []string{"random", "sticky", "pct", "rr", "fifo", "lifo", "starve", "starvename", "slowio"}

// vary gives a run a schedule of its own.
func vary(r *Rng, o Options, label string) RunSpec {
	return RunSpec{Label: label, Args: o.Args(), MaxTicks: o.Ticks, CPUs: r.PickI(1, 2, 3, 4, 5, 8, 13, 16, 24), Seed: r.Next() >> 1, Epoch: int64(1000000000+r.N(1000000000)) * 1000000000, Pool: r.Pick("random", "random", "keep", "empty")}
}

func baseRun(o Options, label string) RunSpec {
	return RunSpec{Label: label, Args: o.Args(), MaxTicks: o.Ticks, CPUs: 1, Seed: 1, Policy: "fifo", Preempt: -1, Pool: "keep"}
}

// bees picks a number of threads for the blockmap: often a few, seldom so many
// that most of them have nothing to do (not when thousands of offsets are tried).
func (o *Options) bees(r *Rng, few ...int) int {
	if r.P(0.04) && !strings.Contains(o.B, "o=3") && !strings.Contains(o.B, "o=4") {
		return r.PickI(35, 36, 37, 100, 255, 256, 4091, 4096, 5000, 8192, 32767)
	}
	return few[r.N(len(few))]
}
