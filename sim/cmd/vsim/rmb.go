package main

import (
	"fmt"
	"strings"

	rt "vsim/simrt"
)

// levelCounts returns the number of sectors and linedefs of a level.
func (l *LevelSpec) counts() (sectors, lines int) {
	for _, x := range l.lumps() {
		switch x.Name {
		case "SECTORS":
			if sectors == 0 {
				sectors = len(x.Data) / 26
			}
		case "LINEDEFS":
			if lines == 0 {
				if l.Hexen {
					lines = len(x.Data) / 16
				} else {
					lines = len(x.Data) / 14
				}
			}
		}
	}
	return
}

// rmbCommands generates option lines valid for a level of ns sectors and nl lines.
func rmbCommands(r *Rng, ns, nl int, report bool) []string {
	sec := func() int {
		if r.P(0.04) {
			return ns + r.N(3) // out of range: reported and ignored
		}
		return r.N(ns)
	}
	list := func() string {
		n := 1 + r.N(4)
		var s []string
		for i := 0; i < n; i++ {
			s = append(s, fmt.Sprint(sec()))
		}
		return "(" + strings.Join(s, " ") + ")"
	}
	var out []string
	for k := r.N(6); k >= 0; k-- {
		inv := ""
		if r.P(0.25) {
			inv = "INVERT "
		}
		switch r.N(13) {
		case 0:
			out = append(out, fmt.Sprintf("%sBLIND %d %s", inv, r.N(4), list()))
		case 1:
			out = append(out, fmt.Sprintf("%sSAFE %d %s", inv, r.N(4), list()))
		case 2:
			out = append(out, fmt.Sprintf("%sBAND %s %d %d %s", inv, r.Pick("BLIND", "SAFE"), r.N(3), 1+r.N(4), list()))
		case 3:
			out = append(out, fmt.Sprintf("DISTANCE %d", r.N(900)))
		case 4:
			out = append(out, fmt.Sprintf("LENGTH %d", r.N(6)))
		case 5:
			out = append(out, fmt.Sprintf("EXCLUDE %s %s", list(), list()))
		case 6:
			out = append(out, fmt.Sprintf("INCLUDE %s %s", list(), list()))
		case 7:
			out = append(out, fmt.Sprintf("GROUP %d %s", r.N(ns), list()))
		case 8:
			out = append(out, fmt.Sprintf("%s %d", r.Pick("LINE", "LEFT", "RIGHT"), r.N(nl)))
		case 9:
			out = append(out, fmt.Sprintf("VORTEX %s %s", list(), list()))
		case 10:
			out = append(out, "PERFECT")
		case 11:
			out = append(out, "# comment")
		case 12:
			if report {
				out = append(out, fmt.Sprintf("REPORT %d", r.N(4)))
			}
		}
	}
	if report {
		out = append(out, fmt.Sprintf("REPORT %d", r.N(3)))
	}
	return out
}

// genRMB generates an option file for the levels of a wad.
func genRMB(r *Rng, w *WadSpec, path string, report bool) []rt.FileSpec {
	var text []string
	min, minl := 1<<30, 1<<30
	for _, it := range w.Items {
		if it.Level != nil {
			s, l := it.Level.counts()
			if s < min {
				min = s
			}
			if l < minl {
				minl = l
			}
		}
	}
	if min < 1 || min == 1<<30 {
		min = 1
	}
	if minl < 1 || minl == 1<<30 {
		minl = 1
	}
	if r.P(0.6) {
		text = append(text, rmbCommands(r, min, minl, report && r.P(0.7))...)
	}
	for _, it := range w.Items {
		if it.Level == nil || r.P(0.4) {
			continue
		}
		s, l := it.Level.counts()
		if s < 1 {
			s = 1
		}
		if l < 1 {
			l = 1
		}
		text = append(text, it.Level.Name)
		text = append(text, rmbCommands(r, s, l, report && r.P(0.6))...)
	}
	nl := "\n"
	if r.P(0.2) {
		nl = "\r\n"
	}
	return []rt.FileSpec{{Path: path, Data: []byte(strings.Join(text, nl) + nl)}}
}

// aliasReport makes the name the report is going to get lead to a file that
// the build uses: the report must not be written over it.
func aliasReport(r *Rng, c *Case, targets ...string) {
	for i := range c.Files {
		f := &c.Files[i]
		if f.Path == "/w/in.rpt" {
			return
		}
	}
	any := false
	to := targets[r.N(len(targets))]
	head := "REPORT 0\n"
	if strings.Contains(to, "/ext") { // make sure it is in use
		head += "NOPROCESS " + to + "\n"
	}
	for i := range c.Files {
		f := &c.Files[i]
		if f.Path == "/w/in.rej" && f.Kind == "" {
			f.Data = append(append([]byte(head), f.Data...), "REPORT 0\n"...)
			any = true
		}
	}
	if !any {
		return
	}
	_, _, found := c.fileAt(to)
	f := rt.FileSpec{Path: "/w/in.rpt", Kind: "symlink", To: to}
	if r.P(0.5) && found {
		f.Kind, f.To = "hardlink", c.abs(to)
	}
	c.Files = append(c.Files, f)
}
