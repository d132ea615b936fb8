package verifsimrt

import "unsafe"

// The simulator's own tables. Go's maps and bytes.Buffer are not used for
// state that several goroutines touch: the race detector checks accesses made
// inside the runtime and the standard library, and would attribute the
// simulator's to the program.

type strTab[V any] struct {
	ks []string
	vs []V
}

func (t *strTab[V]) find(k string) int {
	for i := range t.ks {
		if t.ks[i] == k {
			return i
		}
	}
	return -1
}

func (t *strTab[V]) get(k string) (v V) {
	if i := t.find(k); i >= 0 {
		v = t.vs[i]
	}
	return
}

func (t *strTab[V]) has(k string) bool { return t.find(k) >= 0 }

func (t *strTab[V]) set(k string, v V) {
	if i := t.find(k); i >= 0 {
		t.vs[i] = v
		return
	}
	t.ks = append(t.ks, k)
	t.vs = append(t.vs, v)
}

func (t *strTab[V]) del(k string) {
	if i := t.find(k); i >= 0 {
		n := len(t.ks) - 1
		for j := i; j < n; j++ {
			t.ks[j], t.vs[j] = t.ks[j+1], t.vs[j+1]
		}
		var z V
		t.vs[n] = z
		t.ks, t.vs = t.ks[:n], t.vs[:n]
	}
}

type ptrEnt struct {
	p unsafe.Pointer
	c *chanState
}

// ptrTab maps channel identities to their state.
type ptrTab struct {
	ents []ptrEnt
	n    int
}

func (t *ptrTab) slot(p unsafe.Pointer) int {
	m := len(t.ents) - 1
	i := int((uint64(uintptr(p))*0x9E3779B97F4A7C15)>>20) & m
	for t.ents[i].p != nil && t.ents[i].p != p {
		i = (i + 1) & m
	}
	return i
}

func (t *ptrTab) get(p unsafe.Pointer) *chanState {
	if t.n == 0 {
		return nil
	}
	return t.ents[t.slot(p)].c
}

func (t *ptrTab) put(p unsafe.Pointer, c *chanState) {
	if 2*(t.n+1) > len(t.ents) {
		old := t.ents
		size := 64
		for size < 4*(t.n+1) {
			size *= 2
		}
		t.ents = make([]ptrEnt, size)
		for i := range old {
			if old[i].p != nil {
				t.ents[t.slot(old[i].p)] = old[i]
			}
		}
	}
	t.ents[t.slot(p)] = ptrEnt{p, c}
	t.n++
}

// buf collects output.
type buf struct{ b []byte }

func (b *buf) WriteByte(c byte) { b.b = append(b.b, c) }
func (b *buf) Write(p []byte) (int, error) {
	b.b = append(b.b, p...)
	return len(p), nil
}
func (b *buf) WriteString(s string) (int, error) {
	b.b = append(b.b, s...)
	return len(s), nil
}
func (b *buf) String() string { return string(b.b) }
func (b *buf) Bytes() []byte  { return b.b }
