package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
)

type dirEnt struct {
	name string
	pos  int
	size int
	data []byte
}

type wadFile struct {
	magic  string
	dirPos int
	ents   []dirEnt
}

// parseWad reads a wad and checks that it is well-formed: header, directory and
// every lump lie within the file.
func parseWad(b []byte) (*wadFile, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("file has only %d bytes", len(b))
	}
	w := &wadFile{magic: string(b[:4])}
	if w.magic != "PWAD" && w.magic != "IWAD" {
		return nil, fmt.Errorf("bad signature %q", w.magic)
	}
	n := int(binary.LittleEndian.Uint32(b[4:]))
	w.dirPos = int(binary.LittleEndian.Uint32(b[8:]))
	if n < 0 || n > 1<<20 || w.dirPos+16*n > len(b) {
		return nil, fmt.Errorf("directory of %d entries at %d exceeds the file (%d bytes)", n, w.dirPos, len(b))
	}
	for i := 0; i < n; i++ {
		d := b[w.dirPos+16*i:]
		e := dirEnt{pos: int(binary.LittleEndian.Uint32(d)), size: int(binary.LittleEndian.Uint32(d[4:]))}
		nm := d[8:16]
		if k := bytes.IndexByte(nm, 0); k >= 0 {
			nm = nm[:k]
		}
		e.name = string(nm)
		if e.size > 0 {
			if e.pos+e.size > len(b) {
				return nil, fmt.Errorf("lump %d (%s) at %d size %d exceeds the file (%d bytes)", i, e.name, e.pos, e.size, len(b))
			}
			e.data = b[e.pos : e.pos+e.size]
		}
		w.ents = append(w.ents, e)
	}
	return w, nil
}

// parseWadDir reads only the directory; lumps that do not lie within the file
// have no data.
func parseWadDir(b []byte) *wadFile {
	if len(b) < 12 {
		return nil
	}
	w := &wadFile{magic: string(b[:4])}
	n := int(binary.LittleEndian.Uint32(b[4:]))
	w.dirPos = int(binary.LittleEndian.Uint32(b[8:]))
	if w.magic != "PWAD" && w.magic != "IWAD" || n > 1<<20 || w.dirPos+16*n > len(b) {
		return nil
	}
	for i := 0; i < n; i++ {
		d := b[w.dirPos+16*i:]
		e := dirEnt{pos: int(binary.LittleEndian.Uint32(d)), size: int(binary.LittleEndian.Uint32(d[4:]))}
		nm := d[8:16]
		if k := bytes.IndexByte(nm, 0); k >= 0 {
			nm = nm[:k]
		}
		e.name = string(nm)
		if e.size > 0 && e.pos+e.size <= len(b) {
			e.data = b[e.pos : e.pos+e.size]
		}
		w.ents = append(w.ents, e)
	}
	return w
}

// wadDiff describes the first difference of two files.
func wadDiff(a, b []byte) string {
	if a == nil || b == nil {
		return fmt.Sprintf("sizes %d / %d", len(a), len(b))
	}
	wa, ea := parseWad(a)
	wb, eb := parseWad(b)
	if ea != nil || eb != nil {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		la, lb := a[i:], b[i:]
		if len(la) > 60 {
			la = la[:60]
		}
		if len(lb) > 60 {
			lb = lb[:60]
		}
		return fmt.Sprintf("first difference at byte %d of %d/%d: %q / %q", i, len(a), len(b), la, lb)
	}
	if len(wa.ents) != len(wb.ents) {
		return fmt.Sprintf("%d / %d lumps", len(wa.ents), len(wb.ents))
	}
	var s []string
	for i := range wa.ents {
		x, y := wa.ents[i], wb.ents[i]
		if x.name != y.name || !bytes.Equal(x.data, y.data) {
			s = append(s, fmt.Sprintf("lump %d %s/%s content differs (%d/%d bytes)", i, x.name, y.name, x.size, y.size))
		} else if x.pos != y.pos {
			s = append(s, fmt.Sprintf("lump %d %s offset %d/%d", i, x.name, x.pos, y.pos))
		}
		if len(s) > 4 {
			break
		}
	}
	if len(s) == 0 {
		return fmt.Sprintf("header or unreferenced bytes differ (%d/%d bytes)", len(a), len(b))
	}
	return strings.Join(s, "; ")
}
