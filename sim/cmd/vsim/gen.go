package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- PRNG

type Rng struct{ s uint64 }

func NewRng(seed uint64, stream string) *Rng {
	h := uint64(14695981039346656037)
	for i := 0; i < len(stream); i++ {
		h = (h ^ uint64(stream[i])) * 1099511628211
	}
	r := &Rng{seed*0x9E3779B97F4A7C15 ^ h}
	r.Next()
	return r
}

func (p *Rng) Next() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (p *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.Next() % uint64(n))
}
func (p *Rng) Range(a, b int) int { return a + p.N(b-a+1) }
func (p *Rng) P(f float64) bool   { return float64(p.Next()>>11)/(1<<53) < f }
func (p *Rng) Pick(s ...string) string {
	return s[p.N(len(s))]
}
func (p *Rng) PickI(s ...int) int { return s[p.N(len(s))] }

// ---------------------------------------------------------------- wad model

type Lump struct {
	Name string
	Data []byte
}

const unseen = 998

// LevelSpec describes one generated level; the level is a pure function of it.
type LevelSpec struct {
	Name    string   `json:"name"`
	Hexen   bool     `json:"hexen,omitempty"`
	Seed    uint64   `json:"seed"`
	W       int      `json:"w"`
	H       int      `json:"h"`
	Cell    int      `json:"cell"`
	Jitter  int      `json:"jitter,omitempty"`
	Sectors int      `json:"sectors"`
	Void    int      `json:"void,omitempty"`   // percent of void cells
	Diag    int      `json:"diag,omitempty"`   // percent of cells cut by a diagonal
	Self    int      `json:"self,omitempty"`   // percent of inner edges that get a same-sector line
	Scroll  int      `json:"scroll,omitempty"` // number of scroller dummy lines
	NoSeg   int      `json:"noseg,omitempty"`  // percent of sidedefs that say that they get no segs
	Backs   int      `json:"backs,omitempty"`  // percent of one-sided lines that have only a back side
	Tags    int      `json:"tags,omitempty"`   // percent of lines with builder-specific tags and actions; unseen: no line gets segs
	Unused  int      `json:"unused,omitempty"` // unused vertices
	Mix     bool     `json:"mix,omitempty"`    // vertices in random order, unused ones among them
	Pack    bool     `json:"pack,omitempty"`   // equal sidedefs are shared
	Pillar  int      `json:"pillar,omitempty"` // percent of uncut cells with a pillar or platform
	Points  int      `json:"points,omitempty"` // lines without length
	Twins   int      `json:"twins,omitempty"`  // lines on top of others
	OX      int      `json:"ox,omitempty"`
	OY      int      `json:"oy,omitempty"`
	Missing []string `json:"missing,omitempty"` // level lumps left out
	Dups    []string `json:"dups,omitempty"`    // level lumps present twice
	Shuffle bool     `json:"shuffle,omitempty"` // level lumps in unusual order
	Foreign []string `json:"foreign,omitempty"` // foreign lumps after the level lumps
	Rebuilt bool     `json:"rebuilt,omitempty"` // lumps already hold junk of a previous build
	PolyObj bool     `json:"polyobj,omitempty"`
	Fill    int      `json:"fill,omitempty"`  // isolated lines far from each other (needs Far)
	Pen     [12]int  `json:"pen"`             // pairs of lines that lie in two blocks only at x offset 8*i (i<6) or y offset 8*(i-6)
	Tail    int      `json:"tail,omitempty"`  // short lines in a single block at most of the offsets (needs Far)
	Far     [4]int   `json:"far,omitempty"`   // x0 y0 x1 y1 of a huge rectangle around everything
	Ghost   int      `json:"ghost,omitempty"` // lines that are not rendered are added until there are so many vertices
	Fine    int      `json:"fine,omitempty"`  // lines are cut into small pieces until there are so many segs
	Hall    int      `json:"hall,omitempty"`  // segs on each side of a square room beside the others
	HallAt  int      `json:"hall_at,omitempty"`
	Posts   int      `json:"posts,omitempty"` // square pillars in rows
	Zero    []string `json:"zero,omitempty"`  // level lumps present but without entries
	// RejectData, when set, is the content of the REJECT lump (percent of ones from seed)
	RejectFill int `json:"reject_fill,omitempty"`
	RejectBad  int `json:"reject_bad,omitempty"` // reject lump gets this many bytes too few
}

type ItemSpec struct {
	Lump  string     `json:"lump,omitempty"`
	Size  int        `json:"size,omitempty"`
	Seed  uint64     `json:"seed,omitempty"`
	Level *LevelSpec `json:"level,omitempty"`
}

type WadSpec struct {
	IWAD    bool       `json:"iwad,omitempty"`
	Items   []ItemSpec `json:"items"`
	Gap     int        `json:"gap,omitempty"`      // unused bytes between lumps
	DirHead bool       `json:"dir_head,omitempty"` // directory right after the header
	Share   bool       `json:"share,omitempty"`    // zero sized lumps with odd offsets
}

type gline struct {
	v1, v2      int
	front, back int // sector, -1 none
	flags       int
	special     int
	tag         int
	of          int // pieces of one line share its sidedefs
}

type sdef struct {
	sector       int
	up, low, mid string
}

func sign(a int) int {
	switch {
	case a < 0:
		return -1
	case a > 0:
		return 1
	}
	return 0
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// Geometry generates the level's geometry lumps.
func (l *LevelSpec) lumps() []Lump {
	r := NewRng(l.Seed, "level")
	w, h := l.W, l.H
	ns := l.Sectors
	if ns < 1 {
		ns = 1
	}
	type pt struct{ x, y int }
	var verts []pt
	vidx := map[pt]int{}
	addV := func(x, y int) int {
		p := pt{x, y}
		if i, ok := vidx[p]; ok {
			return i
		}
		vidx[p] = len(verts)
		verts = append(verts, p)
		return len(verts) - 1
	}
	gx := make([][]pt, h+1)
	for j := 0; j <= h; j++ {
		gx[j] = make([]pt, w+1)
		for i := 0; i <= w; i++ {
			jx, jy := 0, 0
			if l.Jitter < 0 { // lengths keep a common divisor
				jx = -l.Jitter * r.Range(-3, 3)
				jy = -l.Jitter * r.Range(-3, 3)
			} else if l.Jitter > 0 {
				jx = r.Range(-l.Jitter, l.Jitter)
				jy = r.Range(-l.Jitter, l.Jitter)
			}
			gx[j][i] = pt{l.OX + i*l.Cell + jx, l.OY + j*l.Cell + jy}
		}
	}
	// sectors grow from seeds so that they are mostly contiguous
	cell := make([][]int, h)
	for j := range cell {
		cell[j] = make([]int, w)
		for i := range cell[j] {
			cell[j][i] = -2
		}
	}
	for j := 0; j < h; j++ {
		for i := 0; i < w; i++ {
			if r.N(100) < l.Void {
				cell[j][i] = -1
			}
		}
	}
	cnt := 0
	for j := 0; j < h; j++ {
		for i := 0; i < w; i++ {
			if cell[j][i] != -2 {
				continue
			}
			s := -1
			if r.P(0.5) && cnt > 0 {
				if i > 0 && cell[j][i-1] >= 0 {
					s = cell[j][i-1]
				} else if j > 0 && cell[j-1][i] >= 0 {
					s = cell[j-1][i]
				}
			}
			if s < 0 {
				if cnt < ns {
					s = cnt
					cnt++
				} else {
					s = r.N(ns)
				}
			}
			cell[j][i] = s
		}
	}
	if cnt == 0 {
		cell[0][0] = 0
		cnt = 1
	}
	get := func(i, j int) int {
		if i < 0 || j < 0 || i >= w || j >= h {
			return -1
		}
		return cell[j][i]
	}
	var lines []gline
	add := func(a, b pt, right, left int, force bool) {
		if a == b {
			return
		}
		if right == left && !force {
			return
		}
		if right == -1 && left == -1 {
			return
		}
		if right == -1 {
			a, b = b, a
			right, left = left, right
		} else if left != -1 && r.P(0.5) {
			a, b = b, a
			right, left = left, right
		}
		ln := gline{v1: addV(a.x, a.y), v2: addV(b.x, b.y), front: right, back: left, flags: 1}
		if left >= 0 {
			ln.flags = 4
			if r.P(0.1) {
				ln.flags |= 1
			}
			if r.P(0.03) {
				ln.flags |= 0x20
			}
		}
		lines = append(lines, ln)
	}
	for j := 0; j < h; j++ {
		for i := 0; i <= w; i++ { // vertical edges: going up, right side is cell (i,j)
			rt, lf := get(i, j), get(i-1, j)
			add(gx[j][i], gx[j+1][i], rt, lf, rt == lf && rt >= 0 && r.N(100) < l.Self)
		}
	}
	for j := 0; j <= h; j++ {
		for i := 0; i < w; i++ { // horizontal edges: going right, right side is the cell below
			rt, lf := get(i, j-1), get(i, j)
			add(gx[j][i], gx[j][i+1], rt, lf, rt == lf && rt >= 0 && r.N(100) < l.Self)
		}
	}
	for j := 0; j < h; j++ {
		for i := 0; i < w; i++ {
			if s := get(i, j); s >= 0 && r.N(100) < l.Diag {
				a, b := gx[j][i], gx[j+1][i+1]
				if r.P(0.5) {
					a, b = gx[j][i+1], gx[j+1][i]
				}
				add(a, b, s, s, true)
			} else if l.Pillar > 0 && s >= 0 && l.Jitter*4 < l.Cell && r.N(100) < l.Pillar {
				cx, cy, d := l.OX+i*l.Cell+l.Cell/2, l.OY+j*l.Cell+l.Cell/2, l.Cell/16+r.N(l.Cell/16)
				p := []pt{{cx - d, cy - d}, {cx - r.N(3), cy + d}, {cx + d, cy + r.N(5)}, {cx + r.N(d), cy - d}}
				if r.P(0.3) {
					p = p[:3]
				}
				in := -1
				if r.P(0.4) {
					in = r.N(cnt)
				}
				for k := range p { // clockwise: the right side is inside
					add(p[k], p[(k+1)%len(p)], in, s, true)
				}
			}
		}
	}
	for k, cols := 0, w*l.Cell/64; k < l.Posts; k++ { // small square pillars
		x, y := l.OX+16+64*(k%cols), l.OY+16+64*(k/cols)
		p := []pt{{x, y}, {x, y + 32}, {x + 32, y + 32}, {x + 32, y}}
		for n := range p {
			add(p[n], p[(n+1)%4], -1, r.N(cnt), true)
		}
	}
	for k := 0; k < l.Points && len(lines) > 0; k++ {
		ln := lines[r.N(len(lines))]
		ln.v2 = ln.v1
		if r.P(0.5) { // two vertices at one place
			verts = append(verts, verts[ln.v1])
			ln.v2 = len(verts) - 1
		}
		lines = append(lines, ln)
	}
	for k := 0; k < l.Twins && len(lines) > 0; k++ {
		ln := lines[r.N(len(lines))]
		if ln.back >= 0 && r.P(0.5) {
			ln.v1, ln.v2, ln.front, ln.back = ln.v2, ln.v1, ln.back, ln.front
		}
		lines = append(lines, ln)
	}
	if len(lines) == 0 {
		add(gx[0][0], gx[1][0], cell[0][0], -1, true)
	}
	if f := l.Far; f[2] > f[0] {
		p := []pt{{f[0], f[1]}, {f[0], f[3]}, {f[2], f[3]}, {f[2], f[1]}}
		for k := range p {
			add(p[k], p[(k+1)%4], 0, -1, true)
		}
		nx := 0
		for c := 0; c < 6; c++ {
			for k := 0; k < l.Pen[c]; k++ {
				x, y := f[0]-8*c+128*(4+2*(nx%25)), f[1]+128*(5+2*(nx/25))+44
				add(pt{x - 3, y}, pt{x - 1, y + 1}, 0, -1, true)
				add(pt{x + 1, y}, pt{x + 3, y + 1}, 0, -1, true)
				nx++
			}
		}
		row, ny := 9+2*(nx/25), 0
		for c := 0; c < 6; c++ {
			for k := 0; k < l.Pen[6+c]; k++ {
				x, y := f[0]+128*(5+2*(ny%25))+44, f[1]-8*c+128*(row+2*(ny/25))
				add(pt{x, y - 3}, pt{x + 1, y - 1}, 0, -1, true)
				add(pt{x, y + 1}, pt{x + 1, y + 3}, 0, -1, true)
				ny++
			}
		}
		// all in one block, whose list is the longest and hence is written last,
		// except at some offsets: there the largest offset is larger than the
		// size of the blockmap would suggest
		for k := 0; k < l.Tail; k++ {
			u, v := 0, 1 // the axis and the other one
			if l.Tail%2 == 1 {
				u, v = 1, 0
			}
			q := [2]int{}
			q[u] = f[u] + (f[2+u]-f[u])/128*128 - 8*(1+l.Tail%5) + 1 + k%5
			if k < l.Tail/2 {
				q[u] -= 8 * (1 + l.Tail%3)
			}
			q[v] = f[2+v] - 9 + k/5%8
			add(pt{q[0], q[1]}, pt{q[0] + u, q[1] + v}, 0, -1, true)
		}
		for k := 0; k < l.Fill; k++ {
			// middle of a block (for small offsets), away from the level itself
			x, y := f[0]+128*(4+2*(k%25))+44, f[1]+128*(4+2*(k/25))+44
			add(pt{x, y}, pt{x + 16, y + 8}, 0, -1, true)
		}
	}
	if l.Fine > 0 {
		segs := 4 * l.Hall
		for _, ln := range lines {
			segs += 1 + sign(ln.back+1)
		}
		all := (l.Fine - segs) * 5 / 4 / (segs - 4*l.Hall)
		for i, n := 0, len(lines); i < n && segs < l.Fine; i++ {
			ln := lines[i]
			each := 1 + sign(ln.back+1)
			a, b := verts[ln.v1], verts[ln.v2]
			parts := abs(a.x-b.x) | abs(a.y-b.y)
			for d := r.Range(all, all*3/2); d > 0 && d <= parts; d++ {
				if parts%d == 0 {
					parts = d
					break
				}
			}
			if parts < 2 || (b.x-a.x)%parts != 0 || (b.y-a.y)%parts != 0 {
				continue
			}
			step := (abs(b.x-a.x) | abs(b.y-a.y)) / parts
			if most := (l.Fine-segs)/each + 1; parts > most {
				parts = most // the last piece is longer
			}
			segs += (parts - 1) * each
			ln.of = i + 1
			dx, dy := sign(b.x-a.x), sign(b.y-a.y)
			for k := 1; k < parts; k++ {
				piece := ln
				piece.v1 = addV(a.x+dx*step*(k-1), a.y+dy*step*(k-1))
				piece.v2 = addV(a.x+dx*step*k, a.y+dy*step*k)
				lines = append(lines, piece)
			}
			lines[i] = ln
			lines[i].v1 = addV(a.x+dx*step*(parts-1), a.y+dy*step*(parts-1))
		}
		// the hall is one subsector of very many segs
		hx, hy := l.OX, l.OY
		switch l.HallAt {
		case 0:
			hx -= 64 + 2*l.Hall
		case 1:
			hx += w*l.Cell + 64
		case 2:
			hy -= 64 + 2*l.Hall
		default:
			hy += h*l.Cell + 64
		}
		for k := 0; k < 4*l.Hall; k++ {
			q, i := k/l.Hall, 2*(k%l.Hall)
			at := func(i int) int {
				switch q {
				case 0:
					return addV(hx, hy+i)
				case 1:
					return addV(hx+i, hy+2*l.Hall)
				case 2:
					return addV(hx+2*l.Hall, hy+2*l.Hall-i)
				}
				return addV(hx+2*l.Hall-i, hy)
			}
			lines = append(lines, gline{v1: at(i), v2: at(i + 2), front: l.Fine % cnt, back: -1, flags: 1, of: 1000000 + q})
		}
		// and a closet behind it, so that it is neither the first nor the last
		if l.Hall > 0 {
			d := []pt{{-128, 64}, {2*l.Hall + 64, 64}, {64, -128}, {64, 2*l.Hall + 64}}[l.HallAt]
			x, y := hx+d.x, hy+d.y
			c := []int{addV(x, y), addV(x, y+64), addV(x+64, y+64), addV(x+64, y)}
			for k := range c {
				lines = append(lines, gline{v1: c[k], v2: c[(k+1)%4], front: l.Hall % cnt, back: -1, flags: 1})
			}
		}
	}
	// shuffle lines so that their numbers say nothing about their place
	for i := len(lines) - 1; i > 0; i-- {
		j := r.N(i + 1)
		lines[i], lines[j] = lines[j], lines[i]
	}
	for i := range lines {
		if r.P(0.08) {
			lines[i].special = []int{1, 31, 48, 97, 62}[r.N(5)]
			lines[i].tag = r.N(5)
			if lines[i].special == 48 || lines[i].special == 1 || lines[i].special == 31 {
				lines[i].tag = 0
			}
		}
	}
	if l.Tags > 0 && !l.Hexen {
		for i := range lines {
			if l.Tags == unseen {
				lines[i].special, lines[i].tag = 0, 998
			} else if r.N(100) < l.Tags {
				switch r.N(5) {
				case 0:
					lines[i].tag = 999
				case 1:
					lines[i].tag = 998
				case 2:
					lines[i].tag = 900 + r.N(90)
				default:
					lines[i].special = 1080 + r.N(7)
					lines[i].tag = r.N(360)
				}
			}
		}
	}
	for l.Ghost > len(verts) && !l.Hexen && len(lines) < 65535 {
		s, x, y := r.N(cnt), l.OX+r.N(w*l.Cell), l.OY+r.N(h*l.Cell)
		verts = append(verts, pt{x, y})
		ln := gline{v1: len(verts) - 1, v2: r.N(len(verts)), front: s, back: s, flags: 4, tag: 998, of: -1 - s}
		if l.Ghost > len(verts) {
			verts = append(verts, pt{x + 1 + r.N(9), y + r.N(9)})
			ln.v2 = len(verts) - 1
		}
		lines = append(lines, ln)
		at := r.N(len(lines))
		lines[at], lines[len(lines)-1] = lines[len(lines)-1], lines[at]
	}
	scroll := map[int]int{} // line -> number of dummy copies already there
	if l.Scroll > 0 && !l.Hexen {
		for k := 0; k < l.Scroll; k++ {
			i := r.N(len(lines))
			if lines[i].special == 48 || lines[i].special == 1048 || lines[i].tag >= 700 {
				continue
			}
			if r.P(0.7) {
				lines[i].special = 48
				lines[i].tag = r.N(5)
				scroll[i] = r.N(4)
			} else if j := r.N(len(lines)); j != i && scroll[j] == 0 && lines[j].tag < 700 && lines[j].special != 48 && lines[j].special != 1048 {
				lines[i].special = 0
				lines[i].tag = 700 + k
				if r.P(0.4) { // a wall that scrolls by itself as well
					lines[i].special = 48
					lines[i].tag = 40 + k
				}
				lines[j].special = 1048
				lines[j].tag = lines[i].tag
				if r.P(0.3) {
					scroll[i] = r.N(3)
				}
			}
		}
	}
	for k := 0; k < l.Unused; k++ {
		verts = append(verts, pt{l.OX - 500 - r.N(300), l.OY - 500 - r.N(300)})
	}
	if l.Mix {
		to := make([]int, len(verts))
		for i := range to {
			to[i] = i
		}
		for i := len(to) - 1; i > 0; i-- {
			j := r.N(i + 1)
			to[i], to[j] = to[j], to[i]
		}
		vs := make([]pt, len(verts))
		for i := range verts {
			vs[to[i]] = verts[i]
		}
		verts = vs
		for i := range lines {
			lines[i].v1, lines[i].v2 = to[lines[i].v1], to[lines[i].v2]
		}
	}
	// sidedefs
	tex := func(p float64) string {
		if r.P(p) {
			return r.Pick("STARTAN2", "BROWN1", "GRAY1", "MIDGRATE")
		}
		return "-"
	}
	var sides []sdef
	nr := NewRng(uint64(l.Seed), "noseg")
	addS := func(sec int, mid bool) int {
		s := sdef{sector: sec, up: tex(0.4), low: tex(0.4), mid: "-"}
		if mid {
			s.mid = tex(1)
		} else {
			s.mid = tex(0.1)
		}
		if l.NoSeg > 0 && nr.N(100) < l.NoSeg {
			s.low = "BSPNOSEG"
		}
		if l.Pack {
			for i := range sides {
				if sides[i] == s {
					return i
				}
			}
		}
		sides = append(sides, s)
		return len(sides) - 1
	}
	var ld, sd, vx, sc, th bytes.Buffer
	le := binary.LittleEndian
	shared := map[int][2]int{}
	for _, ln := range lines {
		fb, ok := shared[ln.of]
		if !ok {
			fb = [2]int{addS(ln.front, ln.back < 0), 0xFFFF}
			if ln.back >= 0 {
				fb[1] = addS(ln.back, false)
			}
			if ln.of != 0 {
				shared[ln.of] = fb
			}
		}
		f, b := fb[0], fb[1]
		if b == 0xFFFF && l.Backs > 0 && nr.N(100) < l.Backs { // only a back side
			f, b = b, f
			ln.v1, ln.v2 = ln.v2, ln.v1
		}
		if l.Hexen {
			var args [5]byte
			binary.Write(&ld, le, []uint16{uint16(ln.v1), uint16(ln.v2), uint16(ln.flags)})
			ld.WriteByte(0)
			ld.Write(args[:])
			binary.Write(&ld, le, []uint16{uint16(f), uint16(b)})
		} else {
			binary.Write(&ld, le, []uint16{uint16(ln.v1), uint16(ln.v2), uint16(ln.flags), uint16(ln.special), uint16(ln.tag), uint16(f), uint16(b)})
		}
	}
	if !l.Hexen {
		rec := ld.Bytes()
		var add []byte
		for i := range lines {
			for k := scroll[i]; k > 0; k-- {
				d := append([]byte(nil), rec[14*i:14*i+14]...)
				binary.LittleEndian.PutUint16(d[4:], 0)
				binary.LittleEndian.PutUint16(d[6:], 48)
				binary.LittleEndian.PutUint16(d[8:], 0)
				add = append(add, d...)
			}
		}
		ld.Write(add)
	}
	for _, s := range sides {
		binary.Write(&sd, le, []int16{0, 0})
		for _, n := range []string{s.up, s.low, s.mid} {
			var b [8]byte
			copy(b[:], n)
			sd.Write(b[:])
		}
		binary.Write(&sd, le, uint16(s.sector))
	}
	for _, v := range verts {
		binary.Write(&vx, le, []int16{int16(v.x), int16(v.y)})
	}
	for i := 0; i < cnt; i++ {
		fh := int16(r.N(4) * 24)
		binary.Write(&sc, le, []int16{fh, fh + 96 + int16(r.N(3)*32)})
		for _, n := range []string{"FLOOR4_8", r.Pick("CEIL3_5", "F_SKY1")} {
			var b [8]byte
			copy(b[:], n)
			sc.Write(b[:])
		}
		binary.Write(&sc, le, []int16{int16(128 + 16*r.N(8)), int16(r.N(3)), int16(r.N(5))})
	}
	nth := 1 + r.N(6)
	for i := 0; i < nth; i++ {
		x, y := int16(l.OX+r.N(w*l.Cell+1)), int16(l.OY+r.N(h*l.Cell+1))
		ty := int16(1)
		if i > 0 {
			ty = int16([]int{2001, 3004, 14, 9}[r.N(4)])
		}
		if l.Hexen {
			binary.Write(&th, le, []int16{0, x, y, 0, 90, ty, 7})
			th.Write(make([]byte, 6))
		} else {
			binary.Write(&th, le, []int16{x, y, 90, ty, 7})
		}
	}
	junk := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Next())
		}
		return b
	}
	rej := make([]byte, (cnt*cnt+7)/8)
	if l.RejectFill > 0 {
		for i := range rej {
			for k := 0; k < 8; k++ {
				if r.N(100) < l.RejectFill {
					rej[i] |= 1 << k
				}
			}
		}
		if (cnt*cnt)%8 != 0 { // unused bits of the last byte stay clear
			rej[len(rej)-1] &= 1<<uint((cnt*cnt)%8) - 1
		}
	} else if !l.Rebuilt {
		rej = nil
	}
	if l.RejectBad > 0 && len(rej) > l.RejectBad {
		rej = rej[:len(rej)-l.RejectBad]
	}
	var segs, ssec, nodes, bmap []byte
	if l.Rebuilt {
		segs, ssec, nodes, bmap = junk(12*r.Range(1, 40)), junk(4*r.Range(1, 20)), junk(28*r.Range(1, 15)), junk(2*r.Range(4, 200))
	}
	all := []Lump{{l.Name, nil}, {"THINGS", th.Bytes()}, {"LINEDEFS", ld.Bytes()}, {"SIDEDEFS", sd.Bytes()}, {"VERTEXES", vx.Bytes()},
		{"SEGS", segs}, {"SSECTORS", ssec}, {"NODES", nodes}, {"SECTORS", sc.Bytes()}, {"REJECT", rej}, {"BLOCKMAP", bmap}}
	if l.Hexen {
		all = append(all, Lump{"BEHAVIOR", append([]byte("ACS\x00\x08\x00\x00\x00"), make([]byte, 12)...)})
		if r.P(0.3) {
			all = append(all, Lump{"SCRIPTS", []byte("// script")})
		}
	}
	var out []Lump
	for _, x := range all {
		miss := false
		for _, m := range l.Missing {
			if m == x.Name {
				miss = true
			}
		}
		if !miss {
			out = append(out, x)
		}
	}
	for _, z := range l.Zero {
		for i := range out {
			if out[i].Name == z {
				out[i].Data = nil
			}
		}
	}
	for _, d := range l.Dups {
		for _, x := range out {
			if x.Name == d {
				out = append(out, Lump{d, junk(r.Range(1, 60))})
				break
			}
		}
	}
	if l.Shuffle && len(out) > 2 {
		for i := len(out) - 1; i > 1; i-- {
			j := 1 + r.N(i)
			out[i], out[j] = out[j], out[i]
		}
	}
	for _, f := range l.Foreign {
		out = append(out, Lump{f, junk(r.Range(1, 50))})
	}
	return out
}

func (w *WadSpec) Lumps() []Lump {
	var ls []Lump
	for _, it := range w.Items {
		if it.Level != nil {
			ls = append(ls, it.Level.lumps()...)
			continue
		}
		r := NewRng(it.Seed, "lump")
		b := make([]byte, it.Size)
		for i := range b {
			b[i] = byte(r.Next())
		}
		ls = append(ls, Lump{it.Lump, b})
	}
	return ls
}

func (w *WadSpec) Bytes() []byte { return writeWad(w.IWAD, w.Lumps(), w.Gap, w.DirHead) }

func writeWad(iwad bool, ls []Lump, gap int, dirHead bool) []byte {
	var body, dir bytes.Buffer
	le := binary.LittleEndian
	base := 12
	if dirHead {
		base = 12 + 16*len(ls)
	}
	for _, l := range ls {
		pos := base + body.Len()
		if len(l.Data) == 0 {
			pos = 0
		}
		binary.Write(&dir, le, []uint32{uint32(pos), uint32(len(l.Data))})
		var n [8]byte
		copy(n[:], l.Name)
		dir.Write(n[:])
		body.Write(l.Data)
		body.Write(make([]byte, gap))
	}
	var out bytes.Buffer
	if iwad {
		out.WriteString("IWAD")
	} else {
		out.WriteString("PWAD")
	}
	binary.Write(&out, le, uint32(len(ls)))
	if dirHead {
		binary.Write(&out, le, uint32(12))
		out.Write(dir.Bytes())
		out.Write(body.Bytes())
	} else {
		binary.Write(&out, le, uint32(12+body.Len()))
		out.Write(body.Bytes())
		out.Write(dir.Bytes())
	}
	return out.Bytes()
}

// ---------------------------------------------------------------- random specs

type genOpt struct {
	maxLevels int
	maxW      int
	odd       bool // missing, duplicate, misordered and foreign lumps
	hexen     float64
	far       float64 // share of levels with extents near the blockmap limits
	tags      float64 // share of levels with builder-specific tags
	scroll    float64 // share of levels with scroller dummy lines
}

func levelNames(r *Rng, n int) []string {
	var out []string
	doom1 := r.P(0.25)
	k := r.N(3) + 1
	for i := 0; i < n; i++ {
		if doom1 {
			out = append(out, fmt.Sprintf("E%dM%d", 1+(k+i)/9%4, 1+(k+i)%9))
		} else {
			out = append(out, fmt.Sprintf("MAP%02d", k+i))
		}
	}
	if n > 1 && r.P(0.3) { // unusual order
		for i := n - 1; i > 0; i-- {
			j := r.N(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func genLevel(r *Rng, name string, o genOpt) *LevelSpec {
	l := &LevelSpec{Name: name, Seed: r.Next() >> 1}
	mw := o.maxW
	if mw == 0 {
		mw = 7
	}
	l.W, l.H = r.Range(1, mw), r.Range(1, mw)
	l.Cell = r.PickI(48, 64, 96, 128, 160, 256)
	if r.P(0.6) {
		l.Jitter = l.Cell * r.Range(2, 20) / 100
	}
	l.Sectors = r.Range(1, l.W*l.H)
	if r.P(0.6) {
		l.Void = r.N(45)
	}
	if r.P(0.5) {
		l.Diag = r.N(50)
	}
	if r.P(0.4) {
		l.Self = r.N(30)
	}
	if r.P(0.2) {
		l.Unused = r.N(10)
	}
	l.Mix = r.P(0.3)
	l.Pack = r.P(0.2)
	if r.P(0.3) {
		l.Pillar = r.N(60)
	}
	if r.P(0.2) {
		if r.P(0.5) {
			l.Points = r.Range(1, 3)
		}
		if r.P(0.5) && !l.Pack { // (with shared sidedefs they would count as scroller dummies)
			l.Twins = r.Range(1, 3)
		}
	}
	l.OX, l.OY = r.Range(-3000, 2000), r.Range(-3000, 2000)
	l.Hexen = r.P(o.hexen)
	if r.P(o.scroll) {
		l.Scroll = r.Range(1, 4)
	}
	if r.P(o.tags) {
		l.Tags = r.Range(1, 12)
		if r.P(0.06) {
			l.Tags = unseen
		}
		if r.P(0.4) {
			l.NoSeg = r.Range(3, 30)
		}
		if o.odd && r.P(0.3) {
			l.Backs = r.Range(3, 60)
		}
	}
	if r.P(0.5) {
		l.Rebuilt = true
	}
	if r.P(0.3) {
		l.RejectFill = r.Range(1, 99)
	}
	if r.P(o.far) {
		l.setFar(r)
	}
	if o.odd {
		build := []string{"SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"}
		if r.P(0.3) {
			for i := r.Range(1, 3); i > 0; i-- {
				l.Missing = append(l.Missing, build[r.N(5)])
			}
		}
		if r.P(0.06) {
			l.Missing = append(l.Missing, r.Pick("SECTORS", "SIDEDEFS", "VERTEXES", "LINEDEFS", "THINGS"))
		}
		l.Shuffle = r.P(0.12)
		if r.P(0.06) {
			l.Dups = append(l.Dups, r.Pick("SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP", "THINGS"))
		}
		if r.P(0.12) {
			l.Foreign = append(l.Foreign, r.Pick("GL_MAP01", "GL_VERT", "DIALOGUE", "LEAFS", "ZNODES"))
		}
	}
	return l
}

// setFar puts the level into a huge rectangle whose number of blocks is just
// below one of the limits of the blockmap format.
func (l *LevelSpec) setFar(r *Rng) {
	limit := r.PickI(32767, 65535)
	even := r.P(0.65) // every offset gives the same number of blocks
	for try := 0; try < 400; try++ {
		w := r.Range(66, 500)
		slack, most := r.Range(10, 350), 420
		if even {
			slack, most = r.Range(330, 800), 1000
		}
		h := (limit - 4 - slack) / w
		if h < 66 || h > 500 || limit-4-w*h > most {
			continue
		}
		l.OX, l.OY = r.Range(-300, 300), r.Range(-300, 300)
		ex, ey := 128*w-1-r.N(110), 128*h-1-r.N(110)
		if even {
			ex, ey = 128*w-1-50-r.N(60), 128*h-1-50-r.N(60)
		}
		x0, y0 := -ex/2-r.N(40), -ey/2-r.N(40)
		if x0 < -32000 || y0 < -32000 {
			continue
		}
		if even {
			for i := range l.Pen {
				l.Pen[i] = 2 * r.N(4)
			}
			if r.P(0.6) {
				l.Tail = r.Range(24, 80)
			}
		}
		l.Far = [4]int{x0, y0, x0 + ex, y0 + ey}
		if l.W*l.Cell > 4000 || l.H*l.Cell > 4000 {
			l.Cell = 128
		}
		return
	}
}

// setBig gives the level so many vertices or segs that they just reach or pass
// one of the limits of the vanilla nodes format.
func (l *LevelSpec) setBig(r *Rng, kind string) {
	l.Posts, l.Ghost, l.Fine, l.Hall = 0, 0, 0, 0
	l.Hexen, l.Far, l.Pen, l.Fill, l.Tail, l.Tags, l.Scroll = false, [4]int{}, [12]int{}, 0, 0, 0, 0
	l.NoSeg, l.Backs = 0, 0
	switch kind {
	case "ghost":
		l.W, l.H, l.Jitter = r.Range(2, 6), r.Range(2, 6), l.Cell*r.Range(5, 20)/100
		l.Diag = r.Range(10, 60)
		l.Unused = 0
		l.Ghost = 65536 - r.PickI(0, 0, 1, 2, 3, 6)
		if r.P(0.1) {
			l.Ghost = 32768 - r.PickI(0, 0, 1, 2)
		}
		return
	case "posts":
		l.W, l.H, l.Cell, l.Jitter = 2, 2, 64*54, 0
		l.Sectors, l.Void, l.Diag, l.Self = 4, 0, 0, 0
		l.Points, l.Twins, l.Pillar = 0, 0, 0
		l.OX, l.OY = -64*r.Range(10, 60), -64*r.Range(10, 60)
		l.Posts = 9230 + r.N(30)
		return
	}
	l.W, l.H, l.Cell, l.Jitter = r.Range(13, 18), r.Range(13, 18), 480, 0
	l.Sectors, l.Void, l.Diag, l.Self = r.Range(60, 170), r.N(15), r.PickI(0, 0, 3), r.PickI(0, 5, 20)
	l.Points, l.Twins, l.Pillar = 0, 0, 0
	l.OX, l.OY = r.Range(-6000, -2000), r.Range(-6000, -2000)
	l.Fine = r.PickI(32768, 65536, 65536) + r.PickI(r.N(40), r.N(900), r.Range(1800, 4000))
	if r.P(0.6) {
		l.Hall, l.HallAt = r.Range(1000, 4000), r.N(4)
		l.Fine = r.PickI(32768, 65536, 65536, 65536) + r.PickI(r.N(4*l.Hall), 4*l.Hall-r.N(l.Hall/2))
	}
}

// setLong gives the level lines so long that their deltas do not fit into a
// node: partition lines have to be scaled down.
func (l *LevelSpec) setLong(r *Rng) {
	l.Posts, l.Ghost, l.Fine, l.Hall, l.Points, l.Twins, l.Jitter = 0, 0, 0, 0, 0, 0, 0
	l.Far, l.Pen, l.Fill, l.Tail, l.Tags, l.Scroll = [4]int{}, [12]int{}, 0, 0, 0, 0
	l.NoSeg, l.Backs = 0, 0
	l.W, l.H, l.Sectors, l.Void = 1, 1, 1, 0
	l.Cell = r.Range(32700, 46000) // (offsets into longer diagonals do not fit into segs)
	rim := 0
	if r.P(0.5) {
		l.Jitter = -r.PickI(256, 500, 512)
		rim = -3 * l.Jitter
		l.Cell = -l.Jitter * r.Range(32768/-l.Jitter-3, 43000/-l.Jitter)
	}
	l.Diag, l.Pillar = 100, 0
	if r.P(0.3) {
		l.Diag, l.Pillar = 0, 100
	}
	l.OX, l.OY = r.Range(-32768+rim, 32767-l.Cell-rim), r.Range(-32768+rim, 32767-l.Cell-rim)
	l.Posts = r.N(60)
}

// oneLevel leaves out all levels but the first.
func (w *WadSpec) oneLevel() {
	var items []ItemSpec
	n := 0
	for _, it := range w.Items {
		if it.Level != nil {
			if n++; n > 1 {
				continue
			}
		}
		items = append(items, it)
	}
	w.Items = items
}

// bigKind decides which cases have levels at the limits of the nodes formats
// (one of so many), and which of these are the ones that take long.
func bigKind(i, every, rare int) string {
	if k := os.Getenv("VSIM_BIG"); k != "" {
		return k
	}
	switch {
	case i%every != 7:
		return ""
	case i/every%(2*rare) == 0:
		return "fine"
	case i/every%(2*rare) == rare:
		return "posts"
	}
	return "ghost"
}

var reCreated = regexp.MustCompile(`Created ([0-9]+) subsectors`)

// tunePosts looks for the number of posts that gives about 32768 subsectors.
func tunePosts(e *Exec, r *Rng, c *Case, o Options) {
	for _, it := range c.Wads["/w/in.wad"].Items {
		l := it.Level
		if l == nil || l.Posts == 0 {
			continue
		}
		probe := &Case{Wads: map[string]*WadSpec{"/w/in.wad": {Items: []ItemSpec{it}}}}
		o.B, o.HasB, o.In, o.Out, o.Det = "-", true, "in.wad", "out.wad", false
		if i := strings.Index(o.N, "c="); i >= 0 {
			o.N = o.N[:i] + o.N[i+3:]
		}
		o.N += "c=d"
		best, far := 0, 1<<30
		for k := 0; k < 4; k++ {
			probe.Runs = []RunSpec{baseRun(o, "probe")}
			m := reCreated.FindStringSubmatch(probe.do(e, 0).Stdout)
			if m == nil {
				return
			}
			n, _ := strconv.Atoi(m[1])
			if d := abs(n - 32768); d < far {
				best, far = l.Posts, d
			}
			next := l.Posts + int(float64(32768-n)*float64(l.Posts)/float64(n))
			if far < 3 || next > 11600 || next < 100 {
				break
			}
			l.Posts = next
		}
		l.Posts = best + r.Range(-1, 1)
	}
}

// bigWad makes the levels of a case big ones, and the options such that what
// does not matter takes little time.
func bigWad(r *Rng, c *Case, o *Options, kind string) {
	for _, it := range c.Wads["/w/in.wad"].Items {
		if it.Level != nil {
			it.Level.setBig(r, kind)
		}
	}
	bigOptions(r, o, kind)
}

// bigAmong makes one of the levels big.
func bigAmong(r *Rng, c *Case, o *Options, kind string) {
	var ls []*LevelSpec
	for _, it := range c.Wads["/w/in.wad"].Items {
		if it.Level != nil {
			ls = append(ls, it.Level)
		}
	}
	ls[r.N(len(ls))].setBig(r, kind)
	bigOptions(r, o, kind)
}

func bigOptions(r *Rng, o *Options, kind string) {
	if r.P(0.7) {
		o.B, o.Endgoal, o.BMode = "-", 0, ""
	} else {
		o.B, o.Endgoal, o.BMode = "", 0, ""
	}
	o.R = "z"
	if kind != "ghost" {
		o.Ticks = 20e9
		o.MultiTree = false
	}
	var rest []string
	for _, a := range o.Rest { // a line for each of the lines would be printed
		if !strings.HasPrefix(a, "-v") && (kind == "ghost" || !strings.HasPrefix(a, "--stknode")) {
			rest = append(rest, a)
		}
	}
	o.Rest = rest
	mt := ""
	if o.MultiTree {
		mt = "m=1"
		o.Rest = append(o.Rest, fmt.Sprintf("--roots=%d", r.Range(1, 4)))
	}
	o.N = fmt.Sprintf("a=%d", r.N(5)) + mt
	if r.P(0.8) {
		o.N += "c=" + string("vvdDDXXZZxzV"[r.N(12)])
	}
}

// farGoal is the endgoal that decides between the offsets of a far level.
func (l *LevelSpec) farGoal() int {
	if (l.Far[2]-l.Far[0])/128*((l.Far[3]-l.Far[1])/128) < 45000 {
		return 1
	}
	return 2
}

func genWad(r *Rng, o genOpt) *WadSpec {
	w := &WadSpec{IWAD: r.P(0.15)}
	nl := 1
	if o.maxLevels > 1 {
		nl = r.Range(1, o.maxLevels)
	}
	names := levelNames(r, nl)
	misc := func() {
		for r.P(0.35) {
			it := ItemSpec{Lump: r.Pick("PLAYPAL", "DEHACKED", "TEXTURE1", "PNAMES", "D_RUNNIN", "S_START", "S_END", "CREDIT", "F_START", "LONGNAME"), Size: r.PickI(0, 0, 3, 17, 100, 768), Seed: r.Next() >> 1}
			w.Items = append(w.Items, it)
		}
	}
	misc()
	for i := 0; i < nl; i++ {
		w.Items = append(w.Items, ItemSpec{Level: genLevel(r, names[i], o)})
		if o.odd || i == nl-1 {
			misc()
		}
	}
	if r.P(0.2) {
		w.Gap = r.Range(1, 9)
	}
	w.DirHead = r.P(0.2)
	return w
}

func (w *WadSpec) LevelNames() []string {
	var out []string
	for _, it := range w.Items {
		if it.Level != nil {
			out = append(out, it.Level.Name)
		}
	}
	return out
}
