package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"regexp"
	"sort"
	"strconv"
)

var (
	tooLargeRe  = regexp.MustCompile(`Number of (subsectors|segs|vertices) is too large \(([0-9]+)\)`)
	levelRe     = regexp.MustCompile(`^(MAP[0-9][0-9]|E[0-9]M[0-9])$`)
	sortOrder   = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}
	mustExist   = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}
	creatable   = map[string]bool{"SEGS": true, "SSECTORS": true, "NODES": true, "REJECT": true, "BLOCKMAP": true}
	isLevelLump = func() map[string]bool {
		m := map[string]bool{}
		for _, s := range sortOrder {
			m[s] = true
		}
		return m
	}()
)

// expEnt is one entry the output directory must have.
type expEnt struct {
	name  string
	kind  string // copy, linedefs, vertexes, segs, ssectors, nodes, reject, zero, blockmap
	srcs  []int  // input entries it may be a copy of
	level int    // index of rebuilt level, -1
}

type expLevel struct {
	name   string
	hexen  bool
	lumps  map[string][]int // input entries by name
	outIdx map[string]int   // expected output entry by name
}

// expected computes the output directory a build of in with c must have.
func expected(in *wadFile, c *cli) (ents []expEnt, levels []*expLevel) {
	for i := 0; i < len(in.ents); {
		e := in.ents[i]
		if !levelRe.MatchString(e.name) || !c.selected(e.name) {
			if !c.eject {
				ents = append(ents, expEnt{e.name, "copy", []int{i}, -1})
			}
			i++
			continue
		}
		j := i + 1
		l := &expLevel{name: e.name, lumps: map[string][]int{}, outIdx: map[string]int{}}
		for j < len(in.ents) && isLevelLump[in.ents[j].name] {
			l.lumps[in.ents[j].name] = append(l.lumps[in.ents[j].name], j)
			if in.ents[j].name == "BEHAVIOR" {
				l.hexen = true
			}
			j++
		}
		valid := true
		for _, m := range mustExist {
			if len(l.lumps[m]) == 0 {
				valid = false
			}
			min := map[string]int{"LINEDEFS": 14, "SIDEDEFS": 30, "VERTEXES": 4, "SECTORS": 26}[m]
			if m == "LINEDEFS" && l.hexen {
				min = 16
			}
			for _, x := range l.lumps[m] {
				if in.ents[x].size < min {
					valid = false
				}
			}
		}
		if !valid {
			for k := i; k < j; k++ {
				ents = append(ents, expEnt{in.ents[k].name, "copy", []int{k}, -1})
			}
			i = j
			continue
		}
		li := len(levels)
		levels = append(levels, l)
		ents = append(ents, expEnt{e.name, "copy", []int{i}, -1})
		for _, n := range sortOrder {
			src := l.lumps[n]
			if len(src) == 0 && !creatable[n] {
				continue
			}
			kind := "copy"
			switch n {
			case "LINEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES":
				if c.n {
					kind = map[string]string{"LINEDEFS": "linedefs", "VERTEXES": "vertexes", "SEGS": "segs", "SSECTORS": "ssectors", "NODES": "nodes"}[n]
				}
			case "REJECT":
				if c.rej == 'z' {
					kind = "zero"
				} else if c.rej == 'n' {
					kind = "reject"
				}
			case "BLOCKMAP":
				if c.b {
					kind = "blockmap"
				}
			}
			l.outIdx[n] = len(ents)
			ents = append(ents, expEnt{n, kind, src, li})
		}
		i = j
	}
	return
}

// checkStructure decides C03 for one successful build.
func checkStructure(inb, outb []byte, c *cli) error {
	in, err := parseWad(inb)
	if err != nil {
		return nil // not a wad, nothing to say
	}
	out, err := parseWad(outb)
	if err != nil {
		return fmt.Errorf("output is not a well-formed wad: %v", err)
	}
	if out.magic != in.magic {
		return fmt.Errorf("signature changed from %s to %s", in.magic, out.magic)
	}
	ents, levels := expected(in, c)
	if len(ents) != len(out.ents) {
		return fmt.Errorf("output has %d entries, expected %d: %s", len(out.ents), len(ents), dirNames(out))
	}
	type span struct {
		a, b int
		what string
	}
	spans := []span{{0, 12, "header"}, {out.dirPos, out.dirPos + 16*len(out.ents), "directory"}}
	zeros := false
	for i, x := range ents {
		o := out.ents[i]
		if o.name != x.name {
			return fmt.Errorf("entry %d is %s, expected %s", i, o.name, x.name)
		}
		what := fmt.Sprintf("entry %d (%s)", i, o.name)
		switch x.kind {
		case "copy":
			same := len(x.srcs) == 0 && o.size == 0
			for _, s := range x.srcs {
				if bytes.Equal(in.ents[s].data, o.data) {
					same = true
				}
			}
			if !same {
				return fmt.Errorf("%s was not requested to be rebuilt but its content changed (%d -> %d bytes)", what, srcSize(in, x.srcs), o.size)
			}
		case "zero":
			n := out.ents[levels[x.level].outIdx["SECTORS"]].size / 26
			if o.size != (n*n+7)/8 {
				return fmt.Errorf("%s: zero-filled reject has %d bytes for %d sectors", what, o.size, n)
			}
			for _, v := range o.data {
				if v != 0 {
					return fmt.Errorf("%s: zero-filled reject holds non-zero bytes", what)
				}
			}
			zeros = true
			continue
		}
		if o.size > 0 {
			spans = append(spans, span{o.pos, o.pos + o.size, what})
		}
	}
	_ = zeros
	for i := range spans {
		for j := range spans[:i] {
			if spans[i].a < spans[j].b && spans[j].a < spans[i].b && spans[i].b > spans[i].a && spans[j].b > spans[j].a {
				return fmt.Errorf("%s [%d,%d) overlaps %s [%d,%d)", spans[j].what, spans[j].a, spans[j].b, spans[i].what, spans[i].a, spans[i].b)
			}
		}
	}
	return nil
}

func srcSize(in *wadFile, srcs []int) int {
	if len(srcs) == 0 {
		return 0
	}
	return in.ents[srcs[len(srcs)-1]].size
}

func dirNames(w *wadFile) string {
	s := ""
	for _, e := range w.ents {
		s += e.name + " "
	}
	return s
}

// ---------------------------------------------------------------- levels

type lineRec struct {
	v1, v2, flags, special, tag int
	side                        [2]int
	x1, y1, x2, y2              int
	args                        [5]byte
}

type lvlData struct {
	name    string
	hexen   bool
	lines   []lineRec
	vx, vy  []int
	sectors int
	sides   []int  // sector of sidedef
	noseg   []bool // sidedefs with BSPNOSEG as lower texture
	raw     map[string][]byte
	bad     string // geometry lumps do not fit together
}

func u16(b []byte, i int) int { return int(binary.LittleEndian.Uint16(b[i:])) }
func s16(b []byte, i int) int { return int(int16(binary.LittleEndian.Uint16(b[i:]))) }
func u32(b []byte, i int) int { return int(binary.LittleEndian.Uint32(b[i:])) }
func s32(b []byte, i int) int { return int(int32(binary.LittleEndian.Uint32(b[i:]))) }

func loadLvl(name string, hexen bool, raw map[string][]byte) *lvlData {
	l := &lvlData{name: name, hexen: hexen, raw: raw, sectors: len(raw["SECTORS"]) / 26}
	vb := raw["VERTEXES"]
	for i := 0; i+4 <= len(vb); i += 4 {
		l.vx = append(l.vx, s16(vb, i))
		l.vy = append(l.vy, s16(vb, i+2))
	}
	sb := raw["SIDEDEFS"]
	for i := 0; i+30 <= len(sb); i += 30 {
		l.sides = append(l.sides, u16(sb, i+28))
		l.noseg = append(l.noseg, string(sb[i+12:i+20]) == "BSPNOSEG")
	}
	lb := raw["LINEDEFS"]
	sz := 14
	if hexen {
		sz = 16
	}
	for i := 0; i+sz <= len(lb); i += sz {
		r := lineRec{v1: u16(lb, i), v2: u16(lb, i+2), flags: u16(lb, i+4)}
		if hexen {
			r.special = int(lb[i+6])
			copy(r.args[:], lb[i+7:i+12])
			r.side = [2]int{u16(lb, i+12), u16(lb, i+14)}
		} else {
			r.special, r.tag = u16(lb, i+6), u16(lb, i+8)
			r.side = [2]int{u16(lb, i+10), u16(lb, i+12)}
		}
		if r.v1 >= len(l.vx) || r.v2 >= len(l.vx) {
			l.bad = fmt.Sprintf("linedef %d references vertices %d,%d of %d", len(l.lines), r.v1, r.v2, len(l.vx))
		} else {
			r.x1, r.y1, r.x2, r.y2 = l.vx[r.v1], l.vy[r.v1], l.vx[r.v2], l.vy[r.v2]
		}
		l.lines = append(l.lines, r)
	}
	return l
}

func inLvl(in *wadFile, x *expLevel) *lvlData {
	raw := map[string][]byte{}
	for n, s := range x.lumps {
		raw[n] = in.ents[s[len(s)-1]].data
	}
	return loadLvl(x.name, x.hexen, raw)
}

func outLvl(out *wadFile, x *expLevel) *lvlData {
	raw := map[string][]byte{}
	for n, s := range x.outIdx {
		raw[n] = out.ents[s].data
	}
	return loadLvl(x.name, x.hexen, raw)
}

// dummies marks the scroller dummy lines (Doom format): lines with action 48
// that repeat an earlier line's vertices and front sidedef.
func (l *lvlData) dummies() []bool {
	d := make([]bool, len(l.lines))
	if l.hexen {
		return d
	}
	type key struct{ a, b, s int }
	first := map[key]bool{}
	for i, x := range l.lines {
		k := key{x.v1, x.v2, x.side[0]}
		if x.special == 48 && first[k] {
			d[i] = true
		}
		first[k] = true
	}
	return d
}

// ---------------------------------------------------------------- blockmap (C13)

type bmapInfo struct {
	x, y, w, h int
	words      int
	largest    int
	lists      [][]int // line numbers per block, dummy removed
	dummy      []int
	span       [][2]int // first and last word (the terminator)
}

// compact reports waste which the documentation rules out: identical lists
// stored twice, words nobody refers to, the longest list not being last, and
// compression that was asked for but not done.
func (m *bmapInfo) compact(c *cli) error {
	if m.words > 65536 {
		return nil // offsets may have wrapped
	}
	n := m.w * m.h
	at := map[string]int{}
	lists := map[int][]int{} // offset -> sorted members
	end := map[int]int{}
	for i, l := range m.lists {
		s := append([]int(nil), l...)
		sort.Ints(s)
		k := fmt.Sprint(s)
		o := m.span[i][0]
		if p, ok := at[k]; ok && p != o {
			return fmt.Errorf("the list %s is stored twice, at %d and %d", firstLines(k, 1), p, o)
		}
		at[k] = o
		lists[o] = s
		end[o] = m.span[i][1]
	}
	var offs []int
	for o := range lists {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	next, overlap, longest := 4+n, 0, 0
	for _, o := range offs {
		if o > next {
			return fmt.Errorf("words %d to %d belong to no list", next, o-1)
		}
		if o < next && o != 4+n-1 {
			overlap++
		}
		if end[o]+1 > next {
			next = end[o] + 1
		}
		if len(lists[o]) > longest {
			longest = len(lists[o])
		}
	}
	if next != m.words {
		return fmt.Errorf("the last list ends at word %d of %d", next, m.words)
	}
	if c.bs == "" && c.ba == "" {
		if overlap > 0 {
			return fmt.Errorf("lists share words although no compression was requested")
		}
		if l := lists[offs[len(offs)-1]]; len(l) < longest {
			return fmt.Errorf("the last list has %d linedefs, another one has %d", len(l), longest)
		}
	}
	if c.ba != "+" && (c.bs != "+" || c.ba != "" || overlap > 0) {
		return nil
	}
	for _, a := range offs {
		for _, b := range offs {
			if a != b && len(lists[a]) < len(lists[b]) && (len(lists[a]) > 0 || c.ba == "+") && subset(lists[a], lists[b]) {
				return fmt.Errorf("the list %v at %d is a part of %v at %d, which the requested compression should have made use of", lists[a], a, lists[b], b)
			}
		}
	}
	return nil
}

// subset tells whether all of a, sorted, is in b, sorted.
func subset(a, b []int) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j == len(b) || b[j] != x {
			return false
		}
	}
	return true
}

func parseBlockmap(b []byte, c *cli) (*bmapInfo, error) {
	if len(b) < 8 || len(b)%2 != 0 {
		return nil, fmt.Errorf("blockmap has %d bytes", len(b))
	}
	m := &bmapInfo{x: s16(b, 0), y: s16(b, 2), w: u16(b, 4), h: u16(b, 6), words: len(b) / 2}
	n := m.w * m.h
	if len(b) < 8+2*n {
		return nil, fmt.Errorf("blockmap of %dx%d blocks has only %d bytes", m.w, m.h, len(b))
	}
	for i := 0; i < n; i++ {
		o := u16(b, 8+2*i)
		if o > m.largest {
			m.largest = o
		}
		if o < 4+n-1 || (o == 4+n-1 && c.bz == 0) {
			return nil, fmt.Errorf("block %d: list offset %d lies in the block table (%d blocks)", i, o, n)
		}
		d, first := -1, o
		if c.bz != 0 {
			if o >= m.words {
				return nil, fmt.Errorf("block %d: list offset %d beyond lump of %d words", i, o, m.words)
			}
			d = u16(b, 2*o)
			o++
		}
		var l []int
		for {
			if o >= m.words {
				return nil, fmt.Errorf("block %d: list runs beyond the lump (%d words)", i, m.words)
			}
			v := u16(b, 2*o)
			o++
			if v == 0xFFFF {
				break
			}
			l = append(l, v)
		}
		m.lists = append(m.lists, l)
		m.span = append(m.span, [2]int{first, o - 1})
		m.dummy = append(m.dummy, d)
	}
	return m, nil
}

// clipLen returns the length of the part of a segment inside an open box.
func clipLen(x1, y1, x2, y2, ax, ay, bx, by float64) float64 {
	t0, t1 := 0.0, 1.0
	dx, dy := x2-x1, y2-y1
	for _, e := range [4][2]float64{{-dx, x1 - ax}, {dx, bx - x1}, {-dy, y1 - ay}, {dy, by - y1}} {
		p, q := e[0], e[1]
		if p == 0 {
			if q <= 0 {
				return 0
			}
			continue
		}
		r := q / p
		if p < 0 {
			t0 = math.Max(t0, r)
		} else {
			t1 = math.Min(t1, r)
		}
	}
	if t1 <= t0 {
		return 0
	}
	return (t1 - t0) * math.Hypot(dx, dy)
}

// checkBlockmap decides C13 for one level.
func checkBlockmap(l *lvlData, c *cli) error {
	b := l.raw["BLOCKMAP"]
	if l.bad != "" {
		return fmt.Errorf("%s", l.bad)
	}
	if len(b) == 0 {
		return nil // "too large" is judged by C12
	}
	m, err := parseBlockmap(b, c)
	if err != nil {
		return err
	}
	if err := m.compact(c); err != nil {
		return err
	}
	dum := l.dummies()
	on := make([][]int, len(l.lines)) // blocks listing the line
	for i, lst := range m.lists {
		for k, v := range lst {
			if v >= len(l.lines) {
				return fmt.Errorf("block %d lists linedef %d of %d", i, v, len(l.lines))
			}
			if dum[v] {
				return fmt.Errorf("block %d lists scroller dummy linedef %d", i, v)
			}
			for _, u := range lst[:k] {
				if u == v {
					return fmt.Errorf("block %d lists linedef %d twice", i, v)
				}
			}
			on[v] = append(on[v], i)
		}
	}
	for i, d := range m.dummy {
		if c.bz == 2 && d != 0 && c.bs == "" && c.ba == "" {
			return fmt.Errorf("block %d: dummy linedef is %d, zero was requested", i, d)
		}
	}
	for v, x := range l.lines {
		one := x.side[1] == 0xFFFF
		skip := dum[v] || (!l.hexen && x.tag == 999)
		if skip {
			if len(on[v]) > 0 {
				return fmt.Errorf("linedef %d is excluded from the blockmap but listed in block %d", v, on[v][0])
			}
			continue
		}
		has := map[int]bool{}
		for _, k := range on[v] {
			has[k] = true
		}
		if c.br && (!one || len(on[v]) == 0 && (x.flags&1) == 0) {
			continue // may have been removed on request
		}
		xa, xb, ya, yb := math.Min(float64(x.x1), float64(x.x2)), math.Max(float64(x.x1), float64(x.x2)), math.Min(float64(x.y1), float64(x.y2)), math.Max(float64(x.y1), float64(x.y2))
		if int(xa) < m.x || int(ya) < m.y || int(xb) >= m.x+128*m.w || int(yb) >= m.y+128*m.h {
			return fmt.Errorf("linedef %d (%d,%d)-(%d,%d) lies outside the blockmap (%d,%d) %dx%d", v, x.x1, x.y1, x.x2, x.y2, m.x, m.y, m.w, m.h)
		}
		bx0, bx1 := (int(xa)-m.x)>>7, (int(xb)-m.x)>>7
		by0, by1 := (int(ya)-m.y)>>7, (int(yb)-m.y)>>7
		for by := by0; by <= by1; by++ {
			for bx := bx0; bx <= bx1; bx++ {
				k := by*m.w + bx
				if has[k] {
					continue
				}
				ax, ay := float64(m.x+128*bx), float64(m.y+128*by)
				need := false
				for _, p := range [2][2]int{{x.x1, x.y1}, {x.x2, x.y2}} {
					if (p[0]-m.x)>>7 == bx && (p[1]-m.y)>>7 == by {
						need = true
					}
				}
				if !need && clipLen(float64(x.x1), float64(x.y1), float64(x.x2), float64(x.y2), ax+1, ay+1, ax+127, ay+127) > 0 {
					need = true
				}
				if need {
					return fmt.Errorf("linedef %d (%d,%d)-(%d,%d) crosses block %d (column %d row %d) but is not listed there", v, x.x1, x.y1, x.x2, x.y2, k, bx, by)
				}
			}
		}
		if c.ba == "" {
			for _, k := range on[v] {
				bx, by := k%m.w, k/m.w
				if bx < bx0 || bx > bx1 || by < by0 || by > by1 {
					// tolerate touching the neighbour's edge
					ax, ay := float64(m.x+128*bx), float64(m.y+128*by)
					if xb < ax-1 || xa > ax+128 || yb < ay-1 || ya > ay+128 {
						return fmt.Errorf("linedef %d (%d,%d)-(%d,%d) is listed in block %d (column %d row %d) which it does not reach", v, x.x1, x.y1, x.x2, x.y2, k, bx, by)
					}
				}
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- nodes (C14)

type segRec struct {
	v1, v2, line, side, angle, off int
}

type nodeRec struct {
	x, y, dx, dy int
	box          [2][4]int // right, left: top bottom left right
	child        [2]int    // >=0 node, <0 ^subsector
}

type bspData struct {
	kind  string
	vx    []float64
	vy    []float64
	segs  []segRec
	ssec  [][2]int // first, count
	nodes []nodeRec
	empty bool
}

func loadBSP(l *lvlData, orig int) (*bspData, error) {
	segs, ss, nodes := l.raw["SEGS"], l.raw["SSECTORS"], l.raw["NODES"]
	d := &bspData{}
	for i := range l.vx {
		d.vx = append(d.vx, float64(l.vx[i]))
		d.vy = append(d.vy, float64(l.vy[i]))
	}
	if len(segs) == 0 && len(ss) == 0 && len(nodes) == 0 {
		d.empty = true
		return d, nil
	}
	box := func(b []byte, i int) (r [4]int) {
		for k := 0; k < 4; k++ {
			r[k] = s16(b, i+2*k)
		}
		return
	}
	child32 := func(v int) int {
		if v&0x80000000 != 0 {
			return ^(v & 0x7fffffff)
		}
		return v
	}
	switch {
	case len(nodes) >= 4 && (string(nodes[:4]) == "XNOD" || string(nodes[:4]) == "ZNOD"):
		d.kind = string(nodes[:4])
		if len(segs) != 0 || len(ss) != 0 {
			return nil, fmt.Errorf("SEGS/SSECTORS not empty beside %s nodes", d.kind)
		}
		b := nodes[4:]
		if d.kind == "ZNOD" {
			zr, err := zlib.NewReader(bytes.NewReader(b))
			if err != nil {
				return nil, fmt.Errorf("compressed nodes: %v", err)
			}
			b, err = io.ReadAll(zr)
			if err != nil {
				return nil, fmt.Errorf("compressed nodes: %v", err)
			}
		}
		p := 0
		short := fmt.Errorf("%s nodes are truncated", d.kind)
		get := func() (int, bool) {
			if p+4 > len(b) {
				return 0, false
			}
			p += 4
			return u32(b, p-4), true
		}
		ov, o1 := get()
		nv, o2 := get()
		if !o1 || !o2 || p+8*nv > len(b) {
			return nil, short
		}
		if ov > len(l.vx) {
			return nil, fmt.Errorf("%s nodes refer to %d original vertices of %d", d.kind, ov, len(l.vx))
		}
		d.vx, d.vy = d.vx[:ov], d.vy[:ov]
		for i := 0; i < nv; i++ {
			d.vx = append(d.vx, float64(s32(b, p))/65536)
			d.vy = append(d.vy, float64(s32(b, p+4))/65536)
			p += 8
		}
		n, o3 := get()
		if !o3 || p+4*n > len(b) {
			return nil, short
		}
		first := 0
		for i := 0; i < n; i++ {
			k, _ := get()
			d.ssec = append(d.ssec, [2]int{first, k})
			first += k
		}
		n, o3 = get()
		if !o3 || p+11*n > len(b) {
			return nil, short
		}
		for i := 0; i < n; i++ {
			d.segs = append(d.segs, segRec{v1: u32(b, p), v2: u32(b, p+4), line: u16(b, p+8), side: int(b[p+10]), angle: -1, off: -1})
			p += 11
		}
		n, o3 = get()
		if !o3 || p+32*n != len(b) {
			return nil, fmt.Errorf("%s nodes: %d bytes for %d nodes", d.kind, len(b)-p, n)
		}
		for i := 0; i < n; i++ {
			d.nodes = append(d.nodes, nodeRec{s16(b, p), s16(b, p+2), s16(b, p+4), s16(b, p+6), [2][4]int{box(b, p+8), box(b, p+16)}, [2]int{child32(u32(b, p+24)), child32(u32(b, p+28))}})
			p += 32
		}
	case len(nodes) >= 8 && string(nodes[:8]) == "xNd4\x00\x00\x00\x00":
		d.kind = "deep"
		b := nodes[8:]
		if len(b)%32 != 0 || len(segs)%16 != 0 || len(ss)%6 != 0 {
			return nil, fmt.Errorf("DeeP lumps have odd sizes: SEGS %d SSECTORS %d NODES %d", len(segs), len(ss), len(nodes))
		}
		for i := 0; i < len(segs); i += 16 {
			d.segs = append(d.segs, segRec{u32(segs, i), u32(segs, i+4), u16(segs, i+10), u16(segs, i+12), u16(segs, i+8), u16(segs, i+14)})
		}
		for i := 0; i < len(ss); i += 6 {
			d.ssec = append(d.ssec, [2]int{u32(ss, i+2), u16(ss, i)})
		}
		for i := 0; i < len(b); i += 32 {
			d.nodes = append(d.nodes, nodeRec{s16(b, i), s16(b, i+2), s16(b, i+4), s16(b, i+6), [2][4]int{box(b, i+8), box(b, i+16)}, [2]int{child32(u32(b, i+24)), child32(u32(b, i+28))}})
		}
	default:
		d.kind = "vanilla"
		if len(nodes)%28 != 0 || len(segs)%12 != 0 || len(ss)%4 != 0 {
			return nil, fmt.Errorf("lumps have odd sizes: SEGS %d SSECTORS %d NODES %d", len(segs), len(ss), len(nodes))
		}
		for i := 0; i < len(segs); i += 12 {
			d.segs = append(d.segs, segRec{u16(segs, i), u16(segs, i+2), u16(segs, i+6), u16(segs, i+8), u16(segs, i+4), u16(segs, i+10)})
		}
		for i := 0; i < len(ss); i += 4 {
			d.ssec = append(d.ssec, [2]int{u16(ss, i+2), u16(ss, i)})
		}
		c16 := func(v int) int {
			if v&0x8000 != 0 {
				return ^(v & 0x7fff)
			}
			return v
		}
		for i := 0; i < len(nodes); i += 28 {
			d.nodes = append(d.nodes, nodeRec{s16(nodes, i), s16(nodes, i+2), s16(nodes, i+4), s16(nodes, i+6), [2][4]int{box(nodes, i+8), box(nodes, i+16)}, [2]int{c16(u16(nodes, i+24)), c16(u16(nodes, i+26))}})
		}
	}
	return d, nil
}

// wantKind tells whether a node format may result from the c= option.
func wantKind(c *cli, kind string) bool {
	switch c.nfmt {
	case 'v', 'V':
		return kind == "vanilla"
	case 'd':
		return kind == "deep"
	case 'x':
		return kind == "XNOD"
	case 'z':
		return kind == "ZNOD"
	case 'D':
		return kind == "vanilla" || kind == "deep"
	case 'X':
		return kind == "vanilla" || kind == "XNOD"
	case 'Z':
		return kind == "vanilla" || kind == "ZNOD"
	}
	return true
}

// checkLevel decides C14 for one level: in is the level before, out after.
func checkLevel(in, out *lvlData, c *cli, log string) (given bool, err error) {
	if in.bad != "" {
		return false, nil // broken input level
	}
	if out.bad != "" {
		return false, fmt.Errorf("%s", out.bad)
	}
	if c.rej == 'n' && len(out.raw["REJECT"]) != (in.sectors*in.sectors+7)/8 {
		return false, fmt.Errorf("REJECT has %d bytes for %d sectors", len(out.raw["REJECT"]), in.sectors)
	}
	// linedefs keep their geometry
	if len(out.lines) < len(in.lines) && c.n && !hasScrollers(in) || len(in.lines) != len(out.lines) && !hasScrollers(in) {
		return false, fmt.Errorf("LINEDEFS has %d lines, input has %d", len(out.lines), len(in.lines))
	}
	// (scroller dummies may be added, removed and moved, nothing else)
	num := func(l *lvlData) (to []int) {
		d := l.dummies()
		for i := range l.lines {
			if !d[i] {
				to = append(to, i)
			}
		}
		return
	}
	ia, ib := num(in), num(out)
	if len(ia) != len(ib) {
		return false, fmt.Errorf("LINEDEFS has %d lines that are no scroller dummies, input has %d", len(ib), len(ia))
	}
	for i := range ia {
		a, b := in.lines[ia[i]], out.lines[ib[i]]
		a.v1, a.v2, b.v1, b.v2 = 0, 0, 0, 0
		if a != b {
			return false, fmt.Errorf("linedef %d changed from %+v to %+v", ia[i], a, b)
		}
	}
	if !c.n {
		return false, nil
	}
	d, err := loadBSP(out, len(in.vx))
	if err != nil {
		return false, err
	}
	if d.empty {
		// numbers that the vanilla format cannot hold are a reason
		for _, m := range tooLargeRe.FindAllStringSubmatch(log, -1) {
			n, _ := strconv.Atoi(m[2])
			if (c.nfmt == 0 || c.nfmt == 'v' || c.nfmt == 'V') && (m[1] == "vertices" && n > 65536 && n == len(out.vx) ||
				m[1] == "segs" && n > 65536 || m[1] == "subsectors" && n > 32767) {
				return true, nil
			}
		}
		// and so is a level none of whose lines is to be rendered
		for i, x := range out.lines {
			seen := false
			for side, k := range x.side {
				seen = seen || k < len(out.sides) && !hidden(out, x, side)
			}
			if !seen || out.dummies()[i] {
				continue
			}
			return false, fmt.Errorf("SEGS, SSECTORS and NODES are all empty")
		}
		return true, nil
	}
	if !wantKind(c, d.kind) {
		return false, fmt.Errorf("nodes have format %s but c=%c was asked for", d.kind, c.nfmt)
	}
	return false, checkBSP(out, d, c)
}

func hasScrollers(l *lvlData) bool {
	if l.hexen {
		return false
	}
	for _, x := range l.lines {
		if x.special == 48 || x.special == 1048 {
			return true
		}
	}
	return false
}

// longLine looks for a line with a delta beyond 32767 that gave a node its
// partition line. Such a line is scaled down: length is what it was before. When
// it has no common divisor, the partition line does not fit into the format
// (which the program admits with -v).
func longLine(l *lvlData, x nodeRec) (length float64, beyond bool) {
	for _, ln := range l.lines {
		dx, dy := float64(ln.x2-ln.x1), float64(ln.y2-ln.y1)
		if math.Abs(dx) <= 32767 && math.Abs(dy) <= 32767 {
			continue
		}
		n := math.Hypot(dx, dy)
		off := func(px, py float64) float64 { // distance from the line
			return math.Abs((px-float64(ln.x1))*dy-(py-float64(ln.y1))*dx) / n
		}
		px, py := float64(x.x), float64(x.y)
		if off(px, py) > 1.5 {
			continue
		}
		if float64(x.dx)*dy == float64(x.dy)*dx {
			return n, false
		}
		for _, wx := range [3]float64{-65536, 0, 65536} {
			for _, wy := range [3]float64{-65536, 0, 65536} {
				if ux, uy := float64(x.dx)+wx, float64(x.dy)+wy; (wx != 0 || wy != 0) && math.Abs(ux) <= math.Abs(dx)+1 && math.Abs(uy) <= math.Abs(dy)+1 && off(px+ux, py+uy) <= 3 {
					return n, true
				}
			}
		}
	}
	return 0, false
}

func checkBSP(l *lvlData, d *bspData, c *cli) error {
	// subsectors partition the segs
	next := 0
	order := make([]int, len(d.ssec))
	for i := range order {
		order[i] = i
	}
	if d.kind == "vanilla" { // segs may be put in another order to fit
		sort.SliceStable(order, func(a, b int) bool { return d.ssec[order[a]][0] < d.ssec[order[b]][0] })
	}
	for _, i := range order {
		s := d.ssec[i]
		if s[0] != next {
			return fmt.Errorf("subsector %d starts at seg %d, expected %d", i, s[0], next)
		}
		if s[1] < 1 {
			return fmt.Errorf("subsector %d has no segs", i)
		}
		next += s[1]
	}
	if next != len(d.segs) {
		return fmt.Errorf("subsectors cover %d of %d segs", next, len(d.segs))
	}
	// segs
	dum := l.dummies()
	type key struct{ line, side int }
	chains := map[key][]int{}
	for i, s := range d.segs {
		if s.v1 >= len(d.vx) || s.v2 >= len(d.vx) {
			return fmt.Errorf("seg %d references vertices %d,%d of %d", i, s.v1, s.v2, len(d.vx))
		}
		if s.line >= len(l.lines) {
			return fmt.Errorf("seg %d references linedef %d of %d", i, s.line, len(l.lines))
		}
		if s.side > 1 || l.lines[s.line].side[s.side] == 0xFFFF || l.lines[s.line].side[s.side] >= len(l.sides) {
			return fmt.Errorf("seg %d references side %d of linedef %d, which has none", i, s.side, s.line)
		}
		if dum[s.line] {
			return fmt.Errorf("seg %d belongs to scroller dummy linedef %d", i, s.line)
		}
		chains[key{s.line, s.side}] = append(chains[key{s.line, s.side}], i)
	}
	tol := 16.0
	for n, ln := range l.lines {
		for side := 0; side < 2; side++ {
			if ln.side[side] == 0xFFFF || ln.side[side] >= len(l.sides) {
				continue
			}
			ch := chains[key{n, side}]
			if hidden(l, ln, side) {
				if len(ch) > 0 {
					return fmt.Errorf("linedef %d side %d has segs but is not to be rendered", n, side)
				}
				continue
			}
			if len(ch) == 0 {
				if dum[n] || c.ni > 0 || (ln.x1 == ln.x2 && ln.y1 == ln.y2) {
					continue
				}
				return fmt.Errorf("linedef %d side %d has no segs", n, side)
			}
			ax, ay, bx, by := float64(ln.x1), float64(ln.y1), float64(ln.x2), float64(ln.y2)
			if side == 1 {
				ax, ay, bx, by = bx, by, ax, ay
			}
			ux, uy := bx-ax, by-ay
			ll := math.Hypot(ux, uy)
			ux, uy = ux/ll, uy/ll
			// order along the line
			pos := func(v int) float64 { return (d.vx[v]-ax)*ux + (d.vy[v]-ay)*uy }
			for i := 1; i < len(ch); i++ {
				for j := i; j > 0 && pos(d.segs[ch[j]].v1) < pos(d.segs[ch[j-1]].v1); j-- {
					ch[j], ch[j-1] = ch[j-1], ch[j]
				}
			}
			cx, cy := ax, ay
			for _, k := range ch {
				s := d.segs[k]
				for _, v := range []int{s.v1, s.v2} {
					if dist := math.Abs((d.vx[v]-ax)*uy - (d.vy[v]-ay)*ux); dist > tol {
						return fmt.Errorf("seg %d: vertex (%g,%g) is %.2f units off its linedef %d (%d,%d)-(%d,%d)", k, d.vx[v], d.vy[v], dist, n, ln.x1, ln.y1, ln.x2, ln.y2)
					}
				}
				if d.vx[s.v1] != cx || d.vy[s.v1] != cy {
					return fmt.Errorf("segs of linedef %d side %d leave a gap or overlap at (%g,%g): next seg %d starts at (%g,%g)", n, side, cx, cy, k, d.vx[s.v1], d.vy[s.v1])
				}
				if pos(s.v2) <= pos(s.v1) {
					return fmt.Errorf("seg %d of linedef %d side %d runs backwards or has no length: (%g,%g)-(%g,%g)", k, n, side, d.vx[s.v1], d.vy[s.v1], d.vx[s.v2], d.vy[s.v2])
				}
				if s.off >= 0 && !special(l, ln) {
					if diff := math.Abs(pos(s.v1) - float64(s.off)); diff > 6 {
						return fmt.Errorf("seg %d of linedef %d side %d has offset %d but starts %.2f units along it", k, n, side, s.off, pos(s.v1))
					}
				}
				if s.angle >= 0 && !special(l, ln) {
					want := math.Atan2(uy, ux) / math.Pi * 32768
					diff := math.Mod(float64(s.angle)-want+4*65536+32768, 65536) - 32768
					// the angle is that of the line or, after rounding, of the seg
					sl := math.Hypot(d.vx[s.v2]-d.vx[s.v1], d.vy[s.v2]-d.vy[s.v1])
					lim := 64 + math.Asin(math.Min(1, 6/sl))/math.Pi*32768
					if math.Abs(diff) > lim {
						return fmt.Errorf("seg %d of linedef %d side %d has angle %d, line has %.0f", k, n, side, s.angle, want)
					}
				}
				cx, cy = d.vx[s.v2], d.vy[s.v2]
			}
			if cx != bx || cy != by {
				return fmt.Errorf("segs of linedef %d side %d end at (%g,%g), the line at (%g,%g)", n, side, cx, cy, bx, by)
			}
		}
	}
	// what a subsector holds is convex and belongs to one sector
	for i, ss := range d.ssec {
		if err := checkSubsector(l, d, i, d.segs[ss[0]:ss[0]+ss[1]]); err != nil {
			return err
		}
	}
	// tree
	if len(d.nodes) == 0 {
		if len(d.ssec) != 1 {
			return fmt.Errorf("no nodes but %d subsectors", len(d.ssec))
		}
		return nil
	}
	seenN := make([]bool, len(d.nodes))
	seenS := make([]bool, len(d.ssec))
	type bb struct{ x0, y0, x1, y1 float64 }
	// collect appends the segs of the subtree
	var collect func(ch int, to []int) []int
	collect = func(ch int, to []int) []int {
		if ch >= 0 {
			return collect(d.nodes[ch].child[1], collect(d.nodes[ch].child[0], to))
		}
		for k := d.ssec[^ch][0]; k < d.ssec[^ch][0]+d.ssec[^ch][1]; k++ {
			to = append(to, k)
		}
		return to
	}
	var walk func(n, depth int) (bb, error)
	one := func(ch, depth int, want [4]int, what string) (bb, error) {
		var r bb
		if ch < 0 {
			s := ^ch
			if s >= len(d.ssec) {
				return r, fmt.Errorf("%s is subsector %d of %d", what, s, len(d.ssec))
			}
			if seenS[s] {
				return r, fmt.Errorf("subsector %d is in the tree twice", s)
			}
			seenS[s] = true
			r = bb{1e9, 1e9, -1e9, -1e9}
			for k := d.ssec[s][0]; k < d.ssec[s][0]+d.ssec[s][1]; k++ {
				for _, v := range []int{d.segs[k].v1, d.segs[k].v2} {
					r.x0, r.y0, r.x1, r.y1 = math.Min(r.x0, d.vx[v]), math.Min(r.y0, d.vy[v]), math.Max(r.x1, d.vx[v]), math.Max(r.y1, d.vy[v])
				}
			}
		} else {
			if ch >= len(d.nodes) {
				return r, fmt.Errorf("%s is node %d of %d", what, ch, len(d.nodes))
			}
			var err error
			if r, err = walk(ch, depth+1); err != nil {
				return r, err
			}
		}
		if r.y1 > float64(want[0])+1 || r.y0 < float64(want[1])-1 || r.x0 < float64(want[2])-1 || r.x1 > float64(want[3])+1 {
			return r, fmt.Errorf("%s: bounding box top %d bottom %d left %d right %d does not contain its segs (%g,%g)-(%g,%g)", what, want[0], want[1], want[2], want[3], r.x0, r.y0, r.x1, r.y1)
		}
		return r, nil
	}
	drift := d.drift()
	walk = func(n, depth int) (bb, error) {
		if seenN[n] {
			return bb{}, fmt.Errorf("node %d is in the tree twice", n)
		}
		seenN[n] = true
		x := d.nodes[n]
		if x.dx == 0 && x.dy == 0 {
			return bb{}, fmt.Errorf("node %d has a partition line of no length", n)
		}
		a, err := one(x.child[0], depth, x.box[0], fmt.Sprintf("right child of node %d", n))
		if err != nil {
			return a, err
		}
		b, err := one(x.child[1], depth, x.box[1], fmt.Sprintf("left child of node %d", n))
		if err != nil {
			return b, err
		}
		// (both subtrees are sound trees by now)
		all := bb{math.Min(a.x0, b.x0), math.Min(a.y0, b.y0), math.Max(a.x1, b.x1), math.Max(a.y1, b.y1)}
		ll := math.Hypot(float64(x.dx), float64(x.dy))
		tl := ll // so long was what gave the direction
		if n, beyond := longLine(l, x); beyond {
			return all, nil // (the format cannot hold it)
		} else if n > tl {
			tl = n
		}
		for side, sign := range [2]float64{1, -1} {
			for _, k := range collect(x.child[side], nil) {
				for _, v := range [2]int{d.segs[k].v1, d.segs[k].v2} {
					px, py := d.vx[v]-float64(x.x), d.vy[v]-float64(x.y)
					dist := sign * (py*float64(x.dx) - px*float64(x.dy)) / ll
					// (vertices are rounded, and so is the direction of the line;
					// in the integer formats every split adds to it)
					if dist > drift+math.Abs(px*float64(x.dx)+py*float64(x.dy))/ll/tl {
						return bb{}, fmt.Errorf("node %d (%d,%d)+(%d,%d): seg %d (%g,%g)-(%g,%g) in its %s subtree lies %.2f units on the other side", n, x.x, x.y, x.dx, x.dy, k,
							d.vx[d.segs[k].v1], d.vy[d.segs[k].v1], d.vx[d.segs[k].v2], d.vy[d.segs[k].v2], [2]string{"right", "left"}[side], dist)
					}
				}
			}
		}
		return all, nil
	}
	if _, err := walk(len(d.nodes)-1, 0); err != nil {
		return err
	}
	for i, s := range seenN {
		if !s {
			return fmt.Errorf("node %d is not reachable from the root", i)
		}
	}
	for i, s := range seenS {
		if !s {
			return fmt.Errorf("subsector %d is not in the tree", i)
		}
	}
	return nil
}

// checkSubsector: convex, and of one sector unless that is marked to be merged with others.
func checkSubsector(l *lvlData, d *bspData, n int, segs []segRec) error {
	sec, merge := -1, false
	for _, s := range segs {
		k := l.sides[l.lines[s.line].side[s.side]]
		if 26*k+26 <= len(l.raw["SECTORS"]) && u16(l.raw["SECTORS"], 26*k+24) >= 900 {
			merge = true
		}
		if sec >= 0 && sec != k && !merge {
			sec = -2 - k
		} else if sec == -1 {
			sec = k
		}
	}
	if sec < -1 && !merge {
		return fmt.Errorf("subsector %d has segs of several sectors (%d among them)", n, -2-sec)
	}
	for i, a := range segs {
		ax, ay := d.vx[a.v1], d.vy[a.v1]
		ux, uy := d.vx[a.v2]-ax, d.vy[a.v2]-ay
		ll := math.Hypot(ux, uy)
		for j, b := range segs {
			if i == j {
				continue
			}
			// distance behind the line of seg a
			p := ((d.vx[b.v1]-ax)*-uy + (d.vy[b.v1]-ay)*ux) / ll
			q := ((d.vx[b.v2]-ax)*-uy + (d.vy[b.v2]-ay)*ux) / ll
			lim := d.drift() // a crossing this near to the end counts as touching
			if math.Min(p, q) >= 0 {
				lim = 0.01
			}
			if math.Max(p, q) > lim {
				return fmt.Errorf("subsector %d is not convex: seg (%g,%g)-(%g,%g) lies %.2f units behind seg (%g,%g)-(%g,%g)", n,
					d.vx[b.v1], d.vy[b.v1], d.vx[b.v2], d.vy[b.v2], math.Max(p, q), ax, ay, d.vx[a.v2], d.vy[a.v2])
			}
		}
	}
	return nil
}

// drift is how far rounding may have moved a vertex off the line it splits:
// the integer formats round at every split, which adds up.
func (d *bspData) drift() float64 {
	if d.kind == "vanilla" || d.kind == "deep" {
		return 10
	}
	return 3
}

// hidden tells whether a side of a line is to have no segs.
func hidden(l *lvlData, ln lineRec, side int) bool {
	if l.noseg[ln.side[side]] {
		return true
	}
	return !l.hexen && (ln.tag == 998 || ln.special == 1086 || ln.special == 1085-side)
}

// special tells whether the line's tag or action changes how segs are made.
func special(l *lvlData, ln lineRec) bool {
	if l.hexen {
		return ln.special > 200
	}
	return ln.tag >= 900 || ln.special >= 1000
}
