package main

import (
	"strconv"
	"strings"
	"time"

	rt "vsim/simrt"
)

// minimise shrinks a violating case while the same violation class persists:
// fewer runs, fewer faults, smaller wads, then an explicit schedule with as few
// task switches as possible.
func minimise(e *Exec, p *Prop, c *Case, v *Violation) (*Case, *Violation) {
	deadline := time.Now().Add(75 * time.Second)
	tries := 0
	best, bv := c, v
	try := func(n *Case) bool {
		if time.Now().After(deadline) || tries > 400 {
			return false
		}
		tries++
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(harnessError); !ok {
					panic(r)
				}
			}
		}()
		if nv := p.check(e, n); nv != nil && nv.Class == v.Class {
			best, bv = n, nv
			return true
		}
		return false
	}
	// runs
	min := p.MinRuns
	if min < 1 {
		min = 1
	}
	for i := len(best.Runs) - 1; i >= min && len(best.Runs) > min+1; i-- {
		n := best.clone()
		n.Runs = append(n.Runs[:i:i], n.Runs[i+1:]...)
		try(n)
	}
	// faults
	for ri := range best.Runs {
		for fi := len(best.Runs[ri].Faults) - 1; fi >= 0; fi-- {
			n := best.clone()
			f := n.Runs[ri].Faults
			n.Runs[ri].Faults = append(f[:fi:fi], f[fi+1:]...)
			try(n)
		}
	}
	// wads
	for _, path := range sortedKeys(best.Wads) {
		for changed := true; changed; {
			changed = false
			w := best.Wads[path]
			for i := len(w.Items) - 1; i >= 0; i-- {
				if len(w.Items) < 2 {
					break
				}
				nw := *w
				nw.Items = append(append([]ItemSpec{}, w.Items[:i]...), w.Items[i+1:]...)
				n := best.clone()
				n.Wads[path] = &nw
				if try(n) {
					changed = true
					break
				}
			}
		}
		for i := range best.Wads[path].Items {
			if best.Wads[path].Items[i].Level == nil {
				continue
			}
			shrinks := []func(*LevelSpec) bool{
				func(l *LevelSpec) bool { o := l.W; l.W = (l.W + 1) / 2; return l.W != o },
				func(l *LevelSpec) bool { o := l.H; l.H = (l.H + 1) / 2; return l.H != o },
				func(l *LevelSpec) bool { o := l.W; l.W--; return o > 1 },
				func(l *LevelSpec) bool { o := l.H; l.H--; return o > 1 },
				func(l *LevelSpec) bool { o := l.Jitter; l.Jitter = 0; return o != 0 },
				func(l *LevelSpec) bool { o := l.Void; l.Void = 0; return o != 0 },
				func(l *LevelSpec) bool { o := l.Diag; l.Diag = 0; return o != 0 },
				func(l *LevelSpec) bool { o := l.Self; l.Self = 0; return o != 0 },
				func(l *LevelSpec) bool { o := l.Unused; l.Unused = 0; return o != 0 },
				func(l *LevelSpec) bool { o := l.Sectors; l.Sectors = (l.Sectors + 1) / 2; return l.Sectors != o },
				func(l *LevelSpec) bool { o := l.Rebuilt; l.Rebuilt = false; return o },
			}
			for _, sh := range shrinks {
				for k := 0; k < 4; k++ {
					w := best.Wads[path]
					nl := *w.Items[i].Level
					if !sh(&nl) {
						break
					}
					nw := *w
					nw.Items = append([]ItemSpec{}, w.Items...)
					nw.Items[i].Level = &nl
					n := best.clone()
					n.Wads[path] = &nw
					if !try(n) {
						break
					}
				}
			}
		}
	}
	// schedule of the violating run
	ri := bv.Run
	if ri < 0 || ri >= len(best.Runs) || best.Runs[ri].Trace != nil {
		return best, bv
	}
	n := best.clone()
	n.Runs[ri].Trace = &rt.Trace{}
	if try(n) {
		return best, bv // no task switch needed beyond blocking
	}
	res := best.Runs[ri]
	cfg := res.config(best.disk())
	cfg.WantTrace = true
	if cfg.MaxTicks == 0 {
		cfg.MaxTicks = 1500000000
	}
	out := func() (r *rt.Result) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(harnessError); !ok {
					panic(x)
				}
			}
		}()
		return e.Run(cfg)
	}()
	if out == nil || out.Trace == nil {
		return best, bv
	}
	n = best.clone()
	n.Runs[ri].Trace = out.Trace
	if !try(n) {
		return best, bv // e.g. the violating disk differs from the initial one
	}
	// fewer preemptions
	for size := len(best.Runs[ri].Trace.Preempts); size >= 1; size /= 2 {
		for i := 0; i < len(best.Runs[ri].Trace.Preempts); {
			t := best.Runs[ri].Trace
			hi := i + size
			if hi > len(t.Preempts) {
				hi = len(t.Preempts)
			}
			n := best.clone()
			n.Runs[ri].Trace = &rt.Trace{Choices: t.Choices, Preempts: append(append([][2]int64{}, t.Preempts[:i]...), t.Preempts[hi:]...)}
			if !try(n) {
				i += size
			}
			if tries > 400 || time.Now().After(deadline) {
				return best, bv
			}
		}
	}
	// fewer non-default choices
	ch := expandChoices(best.Runs[ri].Trace.Choices)
	for size := len(ch); size >= 1; size /= 2 {
		for i := 0; i < len(ch); i += size {
			hi := i + size
			if hi > len(ch) {
				hi = len(ch)
			}
			nz := false
			for k := i; k < hi; k++ {
				nz = nz || ch[k] != 0
			}
			if !nz {
				continue
			}
			nc := append([]int{}, ch...)
			for k := i; k < hi; k++ {
				nc[k] = 0
			}
			n := best.clone()
			n.Runs[ri].Trace = &rt.Trace{Choices: packChoices(nc), Preempts: best.Runs[ri].Trace.Preempts}
			if try(n) {
				ch = nc
			}
			if tries > 400 || time.Now().After(deadline) {
				return best, bv
			}
		}
	}
	return best, bv
}

func expandChoices(s string) []int {
	var out []int
	for _, f := range strings.Fields(s) {
		n := 1
		if k := strings.IndexByte(f, '*'); k > 0 {
			n, _ = strconv.Atoi(f[k+1:])
			f = f[:k]
		}
		v, _ := strconv.Atoi(f)
		for ; n > 0; n-- {
			out = append(out, v)
		}
	}
	return out
}

func packChoices(c []int) string {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	var b []string
	for i := 0; i < len(c); {
		j := i
		for j < len(c) && c[j] == c[i] {
			j++
		}
		s := strconv.Itoa(c[i])
		if j-i > 1 {
			s += "*" + strconv.Itoa(j-i)
		}
		b = append(b, s)
		i = j
	}
	return strings.Join(b, " ")
}
