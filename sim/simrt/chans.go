package verifsimrt

import (
	"fmt"
	"reflect"
	"strconv"
)

// The state of every channel lives here, keyed by the identity of the real
// channel value; the real channel itself never carries data.
type chanState struct {
	keep   interface{}
	id     int
	cap    int
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	slots  []byte // one byte per buffer slot, address used for happens-before
	sx, rx int
	cl     byte
	hs, hr byte
}

type waiter struct {
	g    *G
	sel  *selWait // shared by all cases of one select
	idx  int
	val  interface{}
	ok   bool
	done bool
}

type selWait struct {
	fired int // index of the case that completed, -1 none
	val   interface{}
	ok    bool
	closd bool // woken because the channel was closed under a sender
}

var chans ptrTab

func chanOf(ch interface{}) *chanState {
	v := reflect.ValueOf(ch)
	p := v.UnsafePointer()
	if p == nil {
		return nil
	}
	c := chans.get(p)
	if c == nil {
		c = &chanState{keep: ch, id: chans.n + 1, cap: v.Cap(), slots: make([]byte, v.Cap()+1)}
		chans.put(p, c)
		res.Stats.Channels++
	}
	return c
}

func (c *chanState) String() string {
	return "chan#" + strconv.Itoa(c.id) + "(cap " + strconv.Itoa(c.cap) + ")"
}

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel.fired < 0 {
			return w
		}
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if w.sel.fired < 0 {
			return true
		}
	}
	return false
}

func (c *chanState) canSend() bool {
	return c.closed || len(c.buf) < c.cap || hasLive(c.recvq)
}

func (c *chanState) canRecv() bool {
	return c.closed || len(c.buf) > 0 || hasLive(c.sendq)
}

// doSend completes a send that canSend.
func (c *chanState) doSend(v interface{}) {
	res.Stats.ChanOps++
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	if c.cap == 0 {
		raceRelMerge(&c.hs)
	}
	if w := popLive(&c.recvq); w != nil {
		if c.cap > 0 {
			s := &c.slots[c.sx%c.cap]
			c.sx++
			c.rx++
			raceAcq(s)
			raceRel(s)
		}
		w.sel.fired = w.idx
		w.sel.val = v
		w.sel.ok = true
		ready(w.g)
		return
	}
	s := &c.slots[c.sx%c.cap]
	c.sx++
	raceAcq(s)
	raceRel(s)
	c.buf = append(c.buf, v)
}

// doRecv completes a receive that canRecv.
func (c *chanState) doRecv() (interface{}, bool) {
	res.Stats.ChanOps++
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf[0] = nil
		c.buf = c.buf[1:]
		s := &c.slots[c.rx%c.cap]
		c.rx++
		raceAcq(s)
		raceRel(s)
		if w := popLive(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			c.sx++
			w.sel.fired = w.idx
			ready(w.g)
		}
		return v, true
	}
	if w := popLive(&c.sendq); w != nil {
		raceRelMerge(&c.hr)
		w.sel.fired = w.idx
		ready(w.g)
		raceAcq(&c.hs)
		return w.val, true
	}
	// closed
	raceAcq(&c.cl)
	return nil, false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func chSend(c *chanState, v interface{}) {
	point()
	if cfg.Peek {
		peek(v)
	}
	if c == nil {
		for {
			park("send on nil channel")
		}
	}
	if c.canSend() {
		rendez := c.cap == 0
		c.doSend(v)
		if rendez {
			raceAcq(&c.hr)
		}
		point()
		return
	}
	sw := &selWait{fired: -1}
	if c.cap == 0 {
		raceRelMerge(&c.hs)
	} else {
		// the value is made visible through the slot it will occupy
		raceRelMerge(&c.slots[(c.sx+liveCount(c.sendq))%c.cap])
	}
	w := &waiter{g: cur, sel: sw, val: v}
	c.sendq = append(c.sendq, w)
	park("send on " + c.String())
	if sw.closd {
		panic(plainError("send on closed channel"))
	}
	if c.cap == 0 {
		raceAcq(&c.hr)
	}
}

func liveCount(q []*waiter) int {
	n := 0
	for _, w := range q {
		if w.sel.fired < 0 {
			n++
		}
	}
	return n
}

func chRecv(c *chanState) (interface{}, bool) {
	point()
	if c == nil {
		for {
			park("receive from nil channel")
		}
	}
	if c.canRecv() {
		v, ok := c.doRecv()
		point()
		return v, ok
	}
	sw := &selWait{fired: -1}
	if c.cap == 0 {
		raceRelMerge(&c.hr)
	}
	c.recvq = append(c.recvq, &waiter{g: cur, sel: sw})
	park("receive from " + c.String())
	if sw.ok {
		if c.cap == 0 {
			raceAcq(&c.hs)
		} else {
			raceAcqSlot(c)
		}
	} else {
		raceAcq(&c.cl)
	}
	return sw.val, sw.ok
}

func raceAcqSlot(c *chanState) {
	// the sender that satisfied a parked receiver used the slot before rx
	raceAcq(&c.slots[(c.rx+c.cap-1)%c.cap])
}

func chClose(c *chanState) {
	point()
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	raceRel(&c.cl)
	c.closed = true
	for {
		w := popLive(&c.recvq)
		if w == nil {
			break
		}
		w.sel.fired = w.idx
		w.sel.ok = false
		ready(w.g)
	}
	for {
		w := popLive(&c.sendq)
		if w == nil {
			break
		}
		w.sel.fired = w.idx
		w.sel.closd = true
		ready(w.g)
	}
	point()
}

// ---- instrumented forms

func as[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(box[T]).v
}

// box keeps interface-typed elements apart from absent values.
type box[T any] struct{ v T }

func Recv[T any](ch <-chan T) T {
	v, _ := chRecv(chanOf(ch))
	return as[T](v)
}

func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := chRecv(chanOf(ch))
	return as[T](v), ok
}

func Sender[T any](ch chan<- T) func(T) {
	c := chanOf(ch)
	return func(v T) { chSend(c, box[T]{v}) }
}

func Close[T any](ch chan<- T) { chClose(chanOf(ch)) }

func Len[T any](ch <-chan T) int {
	c := chanOf(ch)
	if c == nil {
		return 0
	}
	return len(c.buf)
}

type Case interface{ simCase() *selCase }

type selCase struct {
	c    *chanState
	send bool
	val  interface{}
	set  func(v interface{}, ok bool)
}

type RecvC[T any] struct {
	V  T
	Ok bool
	s  selCase
}

func (r *RecvC[T]) simCase() *selCase { return &r.s }

type SendC struct{ s selCase }

func (r *SendC) simCase() *selCase { return &r.s }

func RecvCase[T any](ch <-chan T) *RecvC[T] {
	r := &RecvC[T]{}
	r.s.c = chanOf(ch)
	r.s.set = func(v interface{}, ok bool) { r.V, r.Ok = as[T](v), ok }
	return r
}

func SendCase[T any](ch chan<- T) func(T) *SendC {
	c := chanOf(ch)
	return func(v T) *SendC { return &SendC{selCase{c: c, send: true, val: box[T]{v}}} }
}

// Select performs a select statement and returns the index of the chosen case,
// -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	sc := make([]*selCase, len(cases))
	for i, c := range cases {
		sc[i] = c.simCase()
	}
	return selectGo(hasDefault, sc)
}

func selectGo(hasDefault bool, cases []*selCase) int {
	point()
	var rdy []int
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		if c.send && c.c.canSend() || !c.send && c.c.canRecv() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[decideN(len(rdy))]
		c := cases[i]
		if c.send {
			rendez := c.c.cap == 0
			c.c.doSend(c.val)
			if rendez {
				raceAcq(&c.c.hr)
			}
		} else {
			v, ok := c.c.doRecv()
			c.set(v, ok)
		}
		point()
		return i
	}
	if hasDefault {
		return -1
	}
	sw := &selWait{fired: -1}
	on := "select"
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		w := &waiter{g: cur, sel: sw, idx: i, val: c.val}
		if c.send {
			on += " send:" + c.c.String()
			if c.c.cap == 0 {
				raceRelMerge(&c.c.hs)
			} else {
				raceRelMerge(&c.c.slots[(c.c.sx+liveCount(c.c.sendq))%c.c.cap])
			}
			c.c.sendq = append(c.c.sendq, w)
		} else {
			on += " recv:" + c.c.String()
			if c.c.cap == 0 {
				raceRelMerge(&c.c.hr)
			}
			c.c.recvq = append(c.c.recvq, w)
		}
	}
	for sw.fired < 0 {
		park(on)
	}
	for i, c := range cases {
		if i == sw.fired || c.c == nil {
			continue
		}
		drop(&c.c.recvq, sw)
		drop(&c.c.sendq, sw)
	}
	c := cases[sw.fired]
	if c.send {
		if sw.closd {
			panic(plainError("send on closed channel"))
		}
		if c.c.cap == 0 {
			raceAcq(&c.c.hr)
		}
	} else {
		if sw.ok {
			if c.c.cap == 0 {
				raceAcq(&c.c.hs)
			} else {
				raceAcqSlot(c.c)
			}
		} else {
			raceAcq(&c.c.cl)
		}
		c.set(sw.val, sw.ok)
	}
	return sw.fired
}

func drop(q *[]*waiter, sw *selWait) {
	o := (*q)[:0]
	for _, w := range *q {
		if w.sel != sw {
			o = append(o, w)
		}
	}
	*q = o
}

// Reflect_Select is reflect.Select over simulated channels.
func Reflect_Select(cases []reflect.SelectCase) (int, reflect.Value, bool) {
	sc := make([]*selCase, 0, len(cases))
	idx := make([]int, 0, len(cases))
	def := -1
	outs := make([]reflect.Value, len(cases))
	oks := make([]bool, len(cases))
	for i, rc := range cases {
		i, rc := i, rc
		switch rc.Dir {
		case reflect.SelectDefault:
			def = i
			continue
		case reflect.SelectRecv:
			if !rc.Chan.IsValid() || rc.Chan.IsNil() {
				continue
			}
			c := chanOf(rc.Chan.Interface())
			et := rc.Chan.Type().Elem()
			sc = append(sc, &selCase{c: c, set: func(v interface{}, ok bool) {
				oks[i] = ok
				outs[i] = unboxReflect(v, et)
			}})
		case reflect.SelectSend:
			if !rc.Chan.IsValid() || rc.Chan.IsNil() {
				continue
			}
			panic("simrt: reflect.Select with send is not simulated")
		}
		idx = append(idx, i)
	}
	k := selectGo(def >= 0, sc)
	if k < 0 {
		return def, reflect.Value{}, false
	}
	return idx[k], outs[idx[k]], oks[idx[k]]
}

type unboxer interface{ any() interface{} }

func (b box[T]) any() interface{} { return b.v }
func (b box[T]) ptr() interface{} { v := b.v; return &v }

type ptrer interface{ ptr() interface{} }

func unboxReflect(v interface{}, et reflect.Type) reflect.Value {
	if v == nil {
		return reflect.Zero(et)
	}
	return reflect.ValueOf(v.(ptrer).ptr()).Elem()
}

// ---- range

type ChanIter0[T any] struct{ c *chanState }

func RangeChan0[T any](ch <-chan T) *ChanIter0[T] { return &ChanIter0[T]{chanOf(ch)} }
func (it *ChanIter0[T]) Next() bool {
	_, ok := chRecv(it.c)
	return ok
}

type ChanIter[T any] struct{ c *chanState }

func RangeChan[T any](ch <-chan T) (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{chanOf(ch)}, z
}

func (it *ChanIter[T]) Next(v *T) bool {
	x, ok := chRecv(it.c)
	if ok {
		*v = as[T](x)
	}
	return ok
}

type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// RangeMap iterates in an order drawn from the simulator's own stream. Map
// keys are ordered by their printed form first, so that the order is a
// function of the seed only.
func RangeMap[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var zk K
	var zv V
	it := &MapIter[K, V]{m: m}
	type kv struct {
		k K
		s string
	}
	var ks []kv
	for k := range m {
		ks = append(ks, kv{k, keyString(k)})
	}
	sortKV(len(ks), func(i, j int) bool { return ks[i].s < ks[j].s }, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for i := len(ks) - 1; i > 0; i-- {
		j := rMap.intn(i + 1)
		ks[i], ks[j] = ks[j], ks[i]
	}
	for _, k := range ks {
		it.keys = append(it.keys, k.k)
	}
	if len(ks) > 1 {
		res.Stats.MapOrders++
	}
	return it, zk, zv
}

func keyString(k interface{}) string {
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+1<<63)
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		panic("simrt: range over a map keyed by pointers has no reproducible order")
	}
	return fmt.Sprintf("%#v", k)
}

func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func sortKV(n int, less func(i, j int) bool, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}

func Println(a ...interface{}) {
	stdErr(Fmt_Sprintln(a...))
}
