package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"

	rt "vsim/simrt"
)

// ---------------------------------------------------------------- NOPROCESS

// packWad writes entries as a plain wad: header, lumps, directory.
func packWad(magic string, ents []dirEnt) []byte {
	var b, dir bytes.Buffer
	b.WriteString(magic)
	b.Write(make([]byte, 8))
	for _, e := range ents {
		var nm [8]byte
		copy(nm[:], e.name)
		binary.Write(&dir, binary.LittleEndian, []uint32{uint32(b.Len()), uint32(len(e.data))})
		dir.Write(nm[:])
		b.Write(e.data)
	}
	out := b.Bytes()
	binary.LittleEndian.PutUint32(out[4:], uint32(len(ents)))
	binary.LittleEndian.PutUint32(out[8:], uint32(len(out)))
	return append(out, dir.Bytes()...)
}

// rmbFrame is one frame of an option file as far as NOPROCESS is concerned.
type rmbFrameT struct {
	level string
	cmds  []string
}

func parseFrames(text string) (frames []rmbFrameT, crlf bool) {
	frames = []rmbFrameT{{}}
	crlf = strings.Contains(text, "\r\n")
	for _, l := range strings.Split(strings.ReplaceAll(text, "\r\n", "\n"), "\n") {
		t := strings.TrimSpace(l)
		if t == "" || t[0] == '#' {
			continue
		}
		if levelRe.MatchString(t) {
			frames = append(frames, rmbFrameT{level: t})
			continue
		}
		f := &frames[len(frames)-1]
		f.cmds = append(f.cmds, t)
	}
	return
}

// npSource says what a level's NOPROCESS names.
type npSource struct {
	asked bool
	wad   string
	lvl   string
}

func isNP(s string) bool { return s == "NOPROCESS" || strings.HasPrefix(s, "NOPROCESS ") }

func frameOf(fs []rmbFrameT, level string) (own *rmbFrameT, global *rmbFrameT) {
	global = &fs[0]
	for i := 1; i < len(fs); i++ {
		if fs[i].level == level {
			return &fs[i], global
		}
	}
	return nil, global
}

func npOf(fs []rmbFrameT, level string) npSource {
	own, global := frameOf(fs, level)
	last := ""
	for _, f := range []*rmbFrameT{global, own} {
		if f == nil {
			continue
		}
		here := ""
		for _, c := range f.cmds {
			if c == "PERFECT" {
				return npSource{}
			}
			if isNP(c) {
				here = c
			}
		}
		if here != "" {
			last = here
		}
	}
	if last == "" {
		return npSource{}
	}
	a := strings.Fields(strings.ReplaceAll(last, `"`, ""))
	s := npSource{asked: true}
	if len(a) > 1 {
		s.wad = a[1]
	}
	if len(a) > 2 {
		s.lvl = a[2]
	}
	return s
}

// fileAt follows the links of the case's initial disk.
func (c *Case) fileAt(p string) (canon string, data []byte, found bool) {
	if !path.IsAbs(p) {
		p = path.Join("/w", p)
	}
	p = path.Clean(p)
	for k := 0; k < 5; k++ {
		hop := false
		for _, f := range c.disk() {
			if f.Path != p {
				continue
			}
			if f.Kind == "symlink" || f.Kind == "hardlink" {
				p = f.To
				if !path.IsAbs(p) {
					p = path.Join(path.Dir(f.Path), p)
				}
				hop = true
				break
			}
			if f.Kind == "" {
				return p, f.Data, true
			}
			return p, nil, false
		}
		if !hop {
			return p, nil, false
		}
	}
	return p, nil, false
}

// firstReject finds the REJECT lump of a level.
func firstReject(w *wadFile, level string) []byte {
	for i := range w.ents {
		if w.ents[i].name != level {
			continue
		}
		for j := i + 1; j < len(w.ents) && isLevelLump[w.ents[j].name]; j++ {
			if w.ents[j].name == "REJECT" {
				return append([]byte{}, w.ents[j].data...)
			}
		}
		return nil
	}
	return nil
}

// npData returns the lump NOPROCESS must take, nil when it must be declined.
func (c *Case) npData(s npSource, k *cli, level string, want int) []byte {
	var data []byte
	name := s.lvl
	if name == "" {
		name = level
	}
	if s.wad == "" {
		data = c.file("/w/in.wad")
	} else {
		p, d, ok := c.fileAt(s.wad)
		if !ok || k.toFile() && p == k.outPath() {
			return nil
		}
		data = d
	}
	w := parseWadDir(data)
	if w == nil {
		return nil
	}
	r := firstReject(w, name)
	if len(r) == 0 || len(r) != want {
		return nil
	}
	return r
}

// isAssert tells the lines "ASSERT (i ...) (j ...) 0|1".
func isAssert(s string) bool { return strings.HasPrefix(s, "ASSERT ") }

var assertRe = regexp.MustCompile(`^ASSERT \(([-0-9 ]*)\) \(([-0-9 ]*)\) ([0-9]+)$`)

// asserted evaluates the ASSERT lines that concern a level on a source lump:
// every sector of the first list has the given bit towards every sector of the
// second one.
func asserted(fs []rmbFrameT, level string, data []byte, ns int) (good, any bool) {
	good = true
	own, global := frameOf(fs, level)
	for _, f := range []*rmbFrameT{global, own} {
		if f == nil {
			continue
		}
		for _, l := range f.cmds {
			if !isAssert(l) {
				continue
			}
			any = true
			m := assertRe.FindStringSubmatch(l)
			if m == nil {
				panic("not an ASSERT: " + l)
			}
			if m[3] != "0" && m[3] != "1" {
				good = false
				continue
			}
			for _, a := range strings.Fields(m[1]) {
				i, _ := strconv.Atoi(a)
				if i < 0 || i >= ns {
					good = false
					continue
				}
				for _, b := range strings.Fields(m[2]) {
					j, _ := strconv.Atoi(b)
					if j < 0 || j >= ns {
						good = false
						continue
					}
					n := i*ns + j
					if data[n/8]>>uint(n%8)&1 != m[3][0]-'0' {
						good = false
					}
				}
			}
		}
	}
	return
}

// assertsOn says whether ASSERT lines concern a level.
func assertsOn(c *Case, level string) bool {
	fs, _ := parseFrames(string(c.file("/w/in.rej")))
	_, any := asserted(fs, level, nil, 0)
	return any
}

// sansPadding clears the bits of a REJECT lump that belong to no pair of
// sectors of a level.
func sansPadding(c *Case, k *cli, level string, d []byte) []byte {
	in, err := parseWad(c.file("/w/in.wad"))
	if err != nil {
		return d
	}
	_, levels := expected(in, k)
	for _, l := range levels {
		if ns := inLvl(in, l).sectors; l.name == level && ns*ns%8 != 0 && (ns*ns+7)/8 == len(d) {
			d = append([]byte(nil), d...)
			d[len(d)-1] &= 1<<uint(ns*ns%8) - 1
			break
		}
	}
	return d
}

// addAsserts puts ASSERT lines into an option file: about a level they mostly
// hold for the lump its NOPROCESS names.
func (c *Case) addAsserts(r *Rng, text []string, k *cli) []string {
	fs, _ := parseFrames(strings.Join(text, "\n"))
	in, err := parseWad(c.file("/w/in.wad"))
	if err != nil {
		return text
	}
	_, levels := expected(in, k)
	lines := func(level string, ns int) (out []string) {
		if ns < 1 {
			return
		}
		var d []byte
		if s := npOf(fs, level); s.asked {
			d = c.npData(s, k, level, (ns*ns+7)/8)
		}
		wrong := r.P(0.4)
		for n := r.Range(1, 4); n > 0; n-- {
			i, j, v := []int{r.N(ns)}, []int{r.N(ns)}, r.N(2)
			bit := func(i, j int) int { return int(d[(i*ns+j)/8]) >> uint((i*ns+j)%8) & 1 }
			if d != nil {
				v = bit(i[0], j[0])
				for t := r.N(5); t > 0; t-- { // more sectors for which the same holds
					x := r.N(ns)
					same := true
					if r.P(0.5) {
						for _, b := range j {
							same = same && bit(x, b) == v
						}
						if same {
							i = append(i, x)
						}
					} else {
						for _, a := range i {
							same = same && bit(a, x) == v
						}
						if same {
							j = append(j, x)
						}
					}
				}
			}
			if wrong && r.P(0.4) {
				switch r.N(7) {
				case 0:
					i = append(i, ns+r.N(3))
				case 1:
					j = append([]int{ns + r.N(3)}, j...)
				case 2:
					v = r.Range(2, 9)
				case 3:
					v = 1 - v
				case 4:
					i = append(i, r.N(ns))
				default:
					j = append(j, r.N(ns))
				}
			}
			list := func(x []int) string { return strings.Trim(fmt.Sprint(x), "[]") }
			out = append(out, fmt.Sprintf("ASSERT (%s) (%s) %d", list(i), list(j), v))
		}
		return
	}
	var out []string
	at := ""
	for _, l := range text {
		if levelRe.MatchString(l) {
			at = l
		}
		out = append(out, l)
		if at != l {
			continue
		}
		for _, x := range levels {
			if x.name == at && r.P(0.7) {
				out = append(out, lines(at, inLvl(in, x).sectors)...)
				break
			}
		}
	}
	if len(levels) > 0 && r.P(0.15) {
		x := levels[r.N(len(levels))]
		out = append(lines(x.name, inLvl(in, x).sectors), out...)
	}
	return out
}

// npReference derives the case in which every acceptable source already is the
// level's own REJECT lump and every other NOPROCESS is gone. decline drops them
// all.
func npReference(c *Case, k *cli, decline bool) (*Case, map[string][]byte, map[string]bool) {
	in, err := parseWad(c.file("/w/in.wad"))
	if err != nil {
		panic(err)
	}
	fs, crlf := parseFrames(string(c.file("/w/in.rej")))
	_, levels := expected(in, k)
	take := map[string][]byte{}
	only := map[string]bool{}
	var text []string
	strip := func(cmds []string) (out []string) {
		for _, x := range cmds {
			if !isNP(x) && !isAssert(x) {
				out = append(out, x)
			}
		}
		return
	}
	text = append(text, "# rewritten")
	text = append(text, strip(fs[0].cmds)...)
	done := map[string]bool{}
	for _, l := range levels {
		if done[l.name] {
			continue
		}
		done[l.name] = true
		ns := inLvl(in, l).sectors
		s := npOf(fs, l.name)
		own, _ := frameOf(fs, l.name)
		text = append(text, l.name)
		if own != nil {
			text = append(text, strip(own.cmds)...)
		}
		if s.asked && !decline {
			if d := c.npData(s, k, l.name, (ns*ns+7)/8); d != nil {
				good, any := asserted(fs, l.name, d, ns)
				if !good {
					continue
				}
				take[l.name] = d
				text = append(text, "NOPROCESS")
				only[l.name] = !any && (own == nil || len(strip(own.cmds)) == 0) && len(strip(fs[0].cmds)) == 0
			}
		}
	}
	nl := "\n"
	if crlf {
		nl = "\r\n"
	}
	// the input with the sources in place
	var ents []dirEnt
	for i := 0; i < len(in.ents); i++ {
		e := in.ents[i]
		ents = append(ents, e)
		d := take[e.name]
		if d == nil || !levelRe.MatchString(e.name) {
			continue
		}
		j := i + 1
		had := false
		for ; j < len(in.ents) && isLevelLump[in.ents[j].name]; j++ {
			x := in.ents[j]
			if x.name == "REJECT" {
				x.data = d
				had = true
			}
			ents = append(ents, x)
		}
		if !had {
			ents = append(ents, dirEnt{name: "REJECT", data: d})
		}
		i = j - 1
	}
	n := c.clone()
	n.Wads = map[string]*WadSpec{}
	n.Files = nil
	for _, f := range c.disk() {
		switch f.Path {
		case "/w/in.wad":
			f.Data = packWad(in.magic, ents)
		case "/w/in.rej":
			f.Data = []byte(strings.Join(text, nl) + nl)
		}
		n.Files = append(n.Files, f)
	}
	return n, take, only
}

// withNoprocess adds an option file full of NOPROCESS and the wads it names.
func withNoprocess(r *Rng, c *Case, o *Options) bool {
	if !o.HasR || o.R == "-" || strings.HasPrefix(o.R, "z") {
		return false
	}
	o.R += "m"
	w := c.Wads["/w/in.wad"]
	names := w.LevelNames()
	// other builds of the same levels
	var exts []string
	sub := r.P(0.3)
	for k := r.Range(1, 3); k > 0; k-- {
		p := fmt.Sprintf("ext%d.wad", k)
		if sub { // wads that differ in their directories only
			p = []string{"ext.wad", "a/ext.wad", "a/b/ext.wad"}[k-1]
		}
		x := &WadSpec{IWAD: r.P(0.2), DirHead: r.P(0.3)}
		for _, it := range w.Items {
			if it.Level == nil || r.P(0.2) {
				continue
			}
			l := *it.Level
			l.RejectFill = r.Range(1, 99)
			l.RejectBad = 0
			l.Missing, l.Dups = nil, nil
			switch r.N(9) {
			case 0:
				l.RejectBad = 1
			case 1:
				l.Missing = []string{"REJECT"}
			case 2:
				l.Sectors++
				l.Seed++
			case 3:
				l.Name = r.Pick("MAP31", "E4M9", "MAP77")
				names = append(names, l.Name)
			case 4:
				l.RejectFill, l.Rebuilt = 0, false
			}
			x.Items = append(x.Items, ItemSpec{Level: &l})
			if r.P(0.2) {
				x.Items = append(x.Items, ItemSpec{Lump: "REJECT", Size: 9, Seed: 3})
			}
		}
		if len(x.Items) == 0 {
			x.Items = []ItemSpec{{Lump: "CREDIT", Size: 5, Seed: 1}}
		}
		switch r.N(9) {
		case 2: // the header is damaged
			b := append([]byte(nil), x.Bytes()...)
			n := uint32(len(x.Items))
			switch r.N(4) {
			case 0:
				binary.LittleEndian.PutUint32(b[8:], []uint32{0, 4, uint32(len(b)), uint32(len(b)) - 1, 1 << 31, 1<<32 - 1, uint32(r.N(len(b)))}[r.N(7)])
			case 1:
				binary.LittleEndian.PutUint32(b[4:], []uint32{0, n + 1, n + 40}[r.N(3)])
			default:
				binary.LittleEndian.PutUint32(b[4:], []uint32{1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.N(4)])
			}
			c.Files = append(c.Files, rt.FileSpec{Path: "/w/" + p, Data: b})
		case 0: // ends too early
			b := x.Bytes()
			c.Files = append(c.Files, rt.FileSpec{Path: "/w/" + p, Data: b[:r.N(len(b))]})
		case 1: // not a wad
			c.Files = append(c.Files, rt.FileSpec{Path: "/w/" + p, Data: junkBytes(r, r.PickI(0, 5, 12, 200))})
		default:
			c.Wads["/w/"+p] = x
		}
		exts = append(exts, p, p, "./"+p, "/w/"+p, "../w/"+p)
		if r.P(0.2) {
			s := fmt.Sprintf("sext%d.wad", k)
			c.Files = append(c.Files, rt.FileSpec{Path: "/w/" + s, Kind: "symlink", To: p})
			exts = append(exts, s)
		}
		if r.P(0.2) {
			h := fmt.Sprintf("hext%d.wad", k)
			c.Files = append(c.Files, rt.FileSpec{Path: "/w/" + h, Kind: "hardlink", To: "/w/" + p})
			exts = append(exts, h)
		}
	}
	exts = append(exts, "in.wad", "in.wad", "../w/in.wad")
	if r.P(0.3) {
		c.Files = append(c.Files, rt.FileSpec{Path: "/w/inlink.wad", Kind: "symlink", To: "in.wad"})
		exts = append(exts, "inlink.wad", "inlink.wad")
	}
	if r.P(0.3) {
		exts = append(exts, "none.wad", "nodir/none.wad")
	}
	if o.Out != "" && r.P(0.5) {
		// what is there before the build starts is gone by then
		c.Files = append(c.Files, rt.FileSpec{Path: "/w/" + o.Out, Data: w.Bytes()})
		exts = append(exts, o.Out, "./"+o.Out)
	}
	if r.P(0.1) {
		c.Files = append(c.Files, rt.FileSpec{Path: "/w/dir.wad", Kind: "dir"})
		exts = append(exts, "dir.wad")
	}
	np := func() string {
		switch k := r.N(10); {
		case k < 3:
			return "NOPROCESS"
		case k < 6:
			return "NOPROCESS " + exts[r.N(len(exts))]
		default:
			return "NOPROCESS " + exts[r.N(len(exts))] + " " + names[r.N(len(names))]
		}
	}
	var text []string
	if r.P(0.4) {
		text = append(text, np())
	}
	extra := r.P(0.4)
	if extra && r.P(0.3) {
		text = append(text, "BLIND 0 0")
	}
	for _, it := range w.Items {
		if it.Level == nil || r.P(0.15) {
			continue
		}
		s, l := it.Level.counts()
		if s < 1 {
			s = 1
		}
		if l < 1 {
			l = 1
		}
		text = append(text, it.Level.Name, np())
		if r.P(0.2) {
			text = append(text, np())
		}
		if extra && r.P(0.6) {
			text = append(text, rmbCommands(r, s, l, false)...)
		}
	}
	if r.P(0.4) {
		text = c.addAsserts(r, text, parseCLI(o.Args()))
	}
	nl := "\n"
	if r.P(0.2) {
		nl = "\r\n"
	}
	c.Files = append(c.Files, rt.FileSpec{Path: "/w/in.rej", Data: []byte(strings.Join(text, nl) + nl)})
	return true
}

// npCase draws a build whose option file is about NOPROCESS.
func npCase(r *Rng, toFile bool) (*Case, Options) {
	for {
		w := genWad(r, genOpt{maxLevels: 4, maxW: 4, hexen: 0.15})
		var first *LevelSpec
		same := r.P(0.5)
		for _, it := range w.Items {
			if it.Level != nil {
				if first == nil {
					first = it.Level
				} else if same && r.P(0.7) { // as many sectors as another level
					n := it.Level.Name
					*it.Level = *first
					it.Level.Name = n
				}
				if r.P(0.6) {
					it.Level.RejectFill = r.Range(1, 99)
				}
				if r.P(0.1) {
					it.Level.RejectBad = 1
				}
				if r.P(0.1) {
					it.Level.Missing = []string{r.Pick("REJECT", "SEGS", "BLOCKMAP")}
				}
				it.Level.Shuffle = r.P(0.1)
			}
		}
		o := genOptions(r, optGen{multitree: 0.05, noRebuild: true})
		if toFile {
			o.Out = "out.wad"
		}
		c := &Case{Wads: map[string]*WadSpec{"/w/in.wad": w}, Extra: map[string]string{}}
		if withNoprocess(r, c, &o) {
			if r.P(0.25) {
				addFilter(r, w, &o)
			}
			return c, o
		}
	}
}

func init() {
	register(&Prop{ID: "C15", Quick: 1400, Thorough: 30000,
		Rule: "Each seed generates a wad of several levels, other wads (right, of wrong size, truncated, no wad at all, links, the output itself) and an option file with NOPROCESS naming them; every run is compared with a reference in which each acceptable source already is the level's own REJECT, and half of the runs have the named wads fail to be read.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			c, o := npCase(r, r.P(0.8))
			o.Det = true
			manyRuns(r, c, o, 1)
			out := []*Case{c}
			src := func(x *rt.Op) bool {
				return strings.HasPrefix(x.Path, "/w/") && x.Path != "/w/in.rej" && x.Path != "/w/out.wad" && (x.Path != "/w/in.wad" || x.Op == "pread")
			}
			out = append(out, faultCases(e, r, c, vary(r, o, "faulty"), 3, func(ops []rt.Op) []rt.Fault {
				f, ok := drawFault(r, ops, src)
				if !ok {
					return nil
				}
				return []rt.Fault{f}
			})...)
			return out
		},
		Check: func(e *Exec, c *Case) *Violation {
			k := parseCLI(c.Runs[0].Args)
			if !k.rmb || k.rej != 'n' {
				return nil
			}
			all, take, only := npReference(c, k, false)
			ref := cleanRun(e, all, 0, nil)
			if v := endsWell(c, 0, ref); v != nil {
				return v
			}
			if !claimsSuccess(ref) {
				return nil
			}
			res := c.do(e, 0)
			if v := mustEndWell(res, 0, c.Runs[0].Args); v != nil {
				return v
			}
			faulty := len(res.Fired) > 0
			if !claimsSuccess(res) {
				if faulty && !ok(res) {
					return nil
				}
				return viol("failed", 0, "%s: %s", faultText(c, 0), describe(res))
			}
			dest := k.outPath()
			got, err := parseWad(file(res, dest))
			if err != nil {
				return viol("malformed", 0, "%v", err)
			}
			want, err := parseWad(file(ref, dest))
			if err != nil {
				return viol("malformed", 0, "reference: %v", err)
			}
			if len(got.ents) != len(want.ents) {
				return viol("directory", 0, "%d entries instead of %d", len(got.ents), len(want.ents))
			}
			// every lump as in the reference; a source that could not be read may
			// be declined
			var none *wadFile
			lvl := ""
			declined := 0
			for i := range got.ents {
				g, w := got.ents[i], want.ents[i]
				if levelRe.MatchString(g.name) {
					lvl = g.name
				}
				if g.name != w.name {
					return viol("directory", 0, "entry %d is %s instead of %s", i, g.name, w.name)
				}
				loose := g.name == "REJECT" && assertsOn(c, lvl)
				if loose {
					// the bits beyond the table mean nothing, and only a bare copy
					// keeps them
					g.data, w.data = sansPadding(c, k, lvl, g.data), sansPadding(c, k, lvl, w.data)
				}
				if bytes.Equal(g.data, w.data) {
					if g.name == "REJECT" && only[lvl] && !bytes.Equal(g.data, take[lvl]) {
						return viol("not-source", 0, "REJECT of %s is not the named source lump", lvl)
					}
					continue
				}
				if faulty && g.name == "REJECT" && take[lvl] != nil {
					if none == nil {
						x, _, _ := npReference(c, k, true)
						rn := cleanRun(e, x, 0, nil)
						if none, err = parseWad(file(rn, dest)); err != nil {
							return viol("malformed", 0, "reference without sources: %v", err)
						}
					}
					n := none.ents[i].data
					if loose {
						n = sansPadding(c, k, lvl, n)
					}
					if bytes.Equal(n, g.data) {
						declined++
						continue
					}
				}
				return viol("wrong-lump", 0, "%s: entry %d %s of level %s (%d bytes) differs from the reference (%d bytes), accepted sources %v; %s", faultText(c, 0), i, g.name, lvl, g.size, w.size, sortedKeys(take), describe(res))
			}
			in, _ := parseWad(c.file("/w/in.wad"))
			fs, _ := parseFrames(string(c.file("/w/in.rej")))
			_, levels := expected(in, k)
			refused := 0
			for _, l := range levels {
				s := npOf(fs, l.name)
				if !s.asked || take[l.name] != nil {
					continue
				}
				ns := inLvl(in, l).sectors
				if d := c.npData(s, k, l.name, (ns*ns+7)/8); d != nil {
					if _, any := asserted(fs, l.name, d, ns); any {
						e.tally.Probe("source contradicted by ASSERT refused")
						continue
					}
				}
				refused++
			}
			if refused+declined > 0 && strings.TrimSpace(res.Stderr) == "" {
				return viol("silent", 0, "%s: %d source(s) refused without a word", faultText(c, 0), refused+declined)
			}
			if len(take) > 0 {
				e.tally.Probe("source taken")
				for _, n := range sortedKeys(take) {
					if assertsOn(c, n) {
						e.tally.Probe("source taken that meets its ASSERTs")
						break
					}
				}
			}
			if refused > 0 {
				e.tally.Probe("unsuitable source refused")
			}
			if declined > 0 {
				e.tally.Probe("unreadable source refused")
			}
			return nil
		}})

	register(&Prop{ID: "C04", Quick: 1300, Thorough: 30000,
		Rule: "Each seed generates a build with -o (input, option file and NOPROCESS wads as sources; a third of the cases name the input itself as output by another spelling, a symbolic or a hard link) and runs it undisturbed, with failing operations, on a disk running full, killed or losing power; the journal of every run is searched for mutations of a source.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			var c *Case
			var o Options
			if r.P(0.5) {
				c, o = npCase(r, true)
			} else {
				c, o = faultCase(r, false, r.P(0.3))
			}
			o.Det = r.P(0.5)
			if r.P(0.15) && o.HasR {
				srcs := []string{"/w/in.wad", "/w/in.rej"}
				for p := range c.Wads {
					srcs = append(srcs, p)
				}
				sort.Strings(srcs)
				if r.P(0.3) && c.Wads["/w/ext1.wad"] != nil { // the report is named like a source
					c.Wads["/w/in.rpt"] = c.Wads["/w/ext1.wad"]
					delete(c.Wads, "/w/ext1.wad")
					for i := range c.Files {
						f := &c.Files[i]
						if f.Path == "/w/in.rej" {
							f.Data = append([]byte("REPORT 0\nNOPROCESS in.rpt\n"), bytes.ReplaceAll(f.Data, []byte("ext1.wad"), []byte("in.rpt"))...)
						}
						f.To = strings.ReplaceAll(f.To, "ext1.wad", "in.rpt")
					}
					c.Extra["rptsource"] = "1"
				} else {
					aliasReport(r, c, srcs...)
				}
			}
			if r.P(0.35) {
				link := func(kind, p, to string) string {
					c.Files = append(c.Files, rt.FileSpec{Path: "/w/" + p, Kind: kind, To: to})
					return p
				}
				switch r.N(9) {
				case 0:
					o.Out = "in.wad"
				case 1:
					o.Out = "./in.wad"
				case 2:
					o.Out = "../w//in.wad"
				case 3:
					o.Out = "/w/x/../in.wad"
				case 4:
					o.Out = link("symlink", "al.wad", "in.wad")
				case 5:
					o.Out = link("symlink", "al.wad", "/w/in.wad")
				case 6:
					o.Out = link("hardlink", "al.wad", "/w/in.wad")
				case 7:
					o.In = link("symlink", "al.wad", "in.wad")
					o.Out = "in.wad"
				case 8:
					link("symlink", "b.wad", "in.wad")
					o.Out = link("symlink", "al.wad", "b.wad")
				}
				c.Extra["alias"] = "1"
			}
			base := vary(r, o, "run")
			cs := faultCases(e, r, c, base, 5, func(ops []rt.Op) []rt.Fault {
				switch r.N(4) {
				case 0:
					f, ok := drawCrash(r, ops, r.Pick("kill", "power"), ownFile)
					if !ok {
						return nil
					}
					return []rt.Fault{f}
				default:
					var fs []rt.Fault
					for k := 1 + r.N(2); k > 0; k-- {
						if f, ok := drawFault(r, ops, ownFile); ok {
							fs = append(fs, f)
						}
					}
					return fs
				}
			})
			x := c.clone()
			b := base
			x.Runs = []RunSpec{b}
			y := c.clone()
			b.Capacity = capacityFor(r, c, probeOps(e, c, base))
			y.Runs = []RunSpec{b}
			return append(cs, x, y)
		},
		Check: func(e *Exec, c *Case) *Violation {
			res := c.do(e, 0, wantOps)
			if v := hung(0, res); v != nil {
				return v
			}
			k := parseCLI(c.Runs[0].Args)
			outCanon, _, _ := c.fileAt(k.out)
			inCanon, _, _ := c.fileAt("/w/in.wad")
			src := map[string]bool{}
			for _, f := range c.disk() {
				p, _, ok := c.fileAt(f.Path)
				if ok && (p != "/w/in.rpt" || c.Extra["rptsource"] != "") && (p != outCanon || p == inCanon) {
					src[p] = true
				}
			}
			inos := map[int]string{}
			for _, f := range res.Files {
				if src[f.Path] {
					inos[f.Ino] = f.Path
				}
			}
			for _, o := range res.Ops {
				if !o.Mut {
					continue
				}
				p := ""
				if src[o.Path] {
					p = o.Path
				} else if o.Ino != 0 && inos[o.Ino] != "" {
					p = inos[o.Ino]
				}
				if p != "" {
					return viol("source-modified", 0, "%s: %s of %s (%s) changes the source %s", faultText(c, 0), o.Op, o.Path, o.Flag, p)
				}
			}
			for _, f := range c.disk() {
				p, d, ok := c.fileAt(f.Path)
				if ok && src[p] && !bytes.Equal(file(res, p), d) {
					return viol("source-modified", 0, "%s: %s is different afterwards (%d/%d bytes)", faultText(c, 0), p, len(d), len(file(res, p)))
				}
			}
			if outCanon == inCanon && !crashed(res) {
				if ok(res) || claimsSuccess(res) {
					return viol("alias-accepted", 0, "%s: output %s is the input, but the run is not refused: %s", faultText(c, 0), k.out, describe(res))
				}
				e.tally.Probe("output naming the input refused")
			}
			return nil
		}})
}
