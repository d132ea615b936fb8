package verifsimrt

import (
	"context"
	"errors"
	"reflect"
	"time"
)

// ---------------------------------------------------------------- sync

type Mutex struct {
	locked  bool
	waiters []*G
	hb      byte
}
type Sync_Mutex = Mutex

func (m *Mutex) Lock() {
	point()
	for m.locked {
		m.waiters = append(m.waiters, cur)
		park("mutex")
	}
	m.locked = true
	raceAcq(&m.hb)
}

func (m *Mutex) TryLock() bool {
	point()
	if m.locked {
		return false
	}
	m.locked = true
	raceAcq(&m.hb)
	return true
}

func wakeAll(w *[]*G) {
	for _, g := range *w {
		ready(g)
	}
	*w = nil
}

func (m *Mutex) Unlock() {
	if !m.locked {
		endRun("gpanic", 2, "fatal error: sync: unlock of unlocked mutex")
	}
	raceRel(&m.hb)
	m.locked = false
	wakeAll(&m.waiters)
	point()
}

type RWMutex struct {
	writer  bool
	readers int
	waiters []*G
	hw, hr  byte
}
type Sync_RWMutex = RWMutex

func (m *RWMutex) Lock() {
	point()
	for m.writer || m.readers > 0 {
		m.waiters = append(m.waiters, cur)
		park("rwmutex")
	}
	m.writer = true
	raceAcq(&m.hw)
	raceAcq(&m.hr)
}
func (m *RWMutex) TryLock() bool {
	point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	raceAcq(&m.hw)
	raceAcq(&m.hr)
	return true
}
func (m *RWMutex) Unlock() {
	if !m.writer {
		endRun("gpanic", 2, "fatal error: sync: Unlock of unlocked RWMutex")
	}
	raceRel(&m.hw)
	m.writer = false
	wakeAll(&m.waiters)
	point()
}
func (m *RWMutex) RLock() {
	point()
	for m.writer {
		m.waiters = append(m.waiters, cur)
		park("rwmutex read")
	}
	m.readers++
	raceAcq(&m.hw)
}
func (m *RWMutex) TryRLock() bool {
	point()
	if m.writer {
		return false
	}
	m.readers++
	raceAcq(&m.hw)
	return true
}
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		endRun("gpanic", 2, "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	raceRelMerge(&m.hr)
	m.readers--
	wakeAll(&m.waiters)
	point()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return rlocker{m}
}

type WaitGroup struct {
	n       int
	waiters []*G
	hb      byte
}
type Sync_WaitGroup = WaitGroup

func (w *WaitGroup) Add(d int) {
	if d < 0 {
		raceRelMerge(&w.hb)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		wakeAll(&w.waiters)
	}
	point()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	point()
	for w.n > 0 {
		w.waiters = append(w.waiters, cur)
		park("waitgroup")
	}
	raceAcq(&w.hb)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	g := newG("wg.Go")
	go func() {
		gBegin(g)
		defer gEnd(g)
		defer w.Done()
		f()
	}()
	point()
}

type Once struct {
	m    Mutex
	done bool
}
type Sync_Once = Once

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func Sync_OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func Sync_OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func Sync_OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool behaves like sync.Pool under an adversary: any item may be returned, or
// dropped at any time.
type Pool struct {
	New   func() interface{}
	items []poolItem
}

type poolItem struct {
	x  interface{}
	hb *byte
}
type Sync_Pool = Pool

func poolMode() string {
	if cfg.Pool != "" {
		return cfg.Pool
	}
	return "random"
}

func (p *Pool) Get() interface{} {
	point()
	n := len(p.items)
	if n > 0 && poolMode() != "empty" {
		if poolMode() == "random" && rPool.intn(8) == 0 { // garbage collection
			p.items = nil
			n = 0
		} else {
			i := n - 1
			if poolMode() == "random" && rPool.intn(3) == 0 {
				i = rPool.intn(n)
			}
			x := p.items[i]
			p.items = append(p.items[:i:i], p.items[i+1:]...)
			res.Stats.PoolHits++
			raceAcq(x.hb)
			return x.x
		}
	}
	res.Stats.PoolMisses++
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	if poolMode() == "empty" || poolMode() == "random" && rPool.intn(10) == 0 {
		point()
		return
	}
	hb := new(byte)
	raceRel(hb)
	p.items = append(p.items, poolItem{x, hb})
	point()
}

type locker interface {
	Lock()
	Unlock()
}

type Cond struct {
	L       locker
	waiters []*G
}
type Sync_Cond = Cond

func Sync_NewCond(l locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.waiters = append(c.waiters, cur)
	g := cur
	woken := false
	_ = g
	c.L.Unlock()
	for _, x := range c.waiters {
		if x == g {
			woken = true
		}
	}
	if woken { // still queued
		park("cond")
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		i := decideN(len(c.waiters))
		g := c.waiters[i]
		c.waiters = append(c.waiters[:i:i], c.waiters[i+1:]...)
		ready(g)
	}
	point()
}
func (c *Cond) Broadcast() {
	wakeAll(&c.waiters)
	point()
}

// ---------------------------------------------------------------- time

func Time_Now() time.Time {
	flushTicks()
	now += 1000
	return time.Unix(0, now).UTC()
}
func Time_Since(t time.Time) time.Duration { return Time_Now().Sub(t) }
func Time_Until(t time.Time) time.Duration { return t.Sub(Time_Now()) }

func Time_Sleep(d time.Duration) {
	if d <= 0 {
		point()
		return
	}
	sleepFor(int64(d), "sleep")
}

func sleepFor(d int64, why string) {
	g := cur
	flushTicks()
	addTimer(now+d, func() { ready(g) })
	park(why)
}

type Timer struct {
	C  <-chan time.Time
	t  *timer
	ch chan time.Time
	f  func()
}
type Time_Timer = Timer

func timerSend(ch chan time.Time) {
	c := chanOf(ch)
	if len(c.buf) < c.cap || hasLive(c.recvq) {
		c.doSend(box[time.Time]{time.Unix(0, now).UTC()})
	}
}

func Time_NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, ch: ch}
	flushTicks()
	t.t = addTimer(now+int64(d), func() { t.t.dead = true; timerSend(ch) })
	return t
}
func Time_AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	flushTicks()
	t.t = addTimer(now+int64(d), func() { t.t.dead = true; spawn("AfterFunc", f) })
	return t
}
func Time_After(d time.Duration) <-chan time.Time { return Time_NewTimer(d).C }
func (t *Timer) Stop() bool {
	was := !t.t.dead
	t.t.dead = true
	if t.ch != nil {
		chanOf(t.ch).buf = nil
	}
	return was
}
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	flushTicks()
	t.t = addTimer(now+int64(d), func() {
		t.t.dead = true
		if t.f != nil {
			spawn("AfterFunc", t.f)
		} else {
			timerSend(t.ch)
		}
	})
	return was
}

type Ticker struct {
	C  <-chan time.Time
	ch chan time.Time
	t  *timer
	d  int64
}
type Time_Ticker = Ticker

func Time_NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	t := &Ticker{C: ch, ch: ch, d: int64(d)}
	t.arm()
	return t
}
func (t *Ticker) arm() {
	flushTicks()
	t.t = addTimer(now+t.d, func() { timerSend(t.ch); t.arm() })
}
func (t *Ticker) Stop() { t.t.dead = true }
func (t *Ticker) Reset(d time.Duration) {
	t.t.dead = true
	t.d = int64(d)
	t.arm()
}
func Time_Tick(d time.Duration) <-chan time.Time { return Time_NewTicker(d).C }

// ---------------------------------------------------------------- runtime

func Runtime_NumCPU() int { return cfg.CPUs }

var gomaxprocs int

func Runtime_GOMAXPROCS(n int) int {
	o := gomaxprocs
	if o == 0 {
		o = cfg.CPUs
	}
	if n > 0 {
		gomaxprocs = n
	}
	return o
}
func Runtime_Gosched() { point() }
func Runtime_NumGoroutine() int {
	n := 0
	for _, g := range gs {
		if g.state != gDone {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- context

type ctxKey struct{}

type simCtx struct {
	context.Context // parent
	done            chan struct{}
	err             error
	cause           error
	kids            []*simCtx
	tm              *timer
	deadline        time.Time
}

func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error {
	if c.err != nil {
		raceAcq(&chanOf(c.done).cl)
	}
	return c.err
}
func (c *simCtx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.Context.Deadline()
}
func (c *simCtx) Value(k interface{}) interface{} {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	cs := chanOf(c.done)
	raceRel(&cs.cl)
	cs.closed = true
	for {
		w := popLive(&cs.recvq)
		if w == nil {
			break
		}
		w.sel.fired = w.idx
		w.sel.ok = false
		ready(w.g)
	}
}

func newCtx(parent context.Context) *simCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &simCtx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*simCtx); ok && p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func Context_WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { point(); c.cancel(context.Canceled, nil); point() }
}
func Context_WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { point(); c.cancel(context.Canceled, cause); point() }
}
func Context_WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	c.deadline = d
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		c.deadline = pd
	}
	c.tm = addTimer(d.UnixNano(), func() { c.cancel(context.DeadlineExceeded, nil) })
	return c, func() { point(); c.tm.dead = true; c.cancel(context.Canceled, nil); point() }
}
func Context_WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return Context_WithDeadline(parent, time.Unix(0, now).Add(d))
}
func Context_Cause(c context.Context) error {
	if p, ok := c.Value(ctxKey{}).(*simCtx); ok && p != nil {
		return p.cause
	}
	return c.Err()
}

// ---------------------------------------------------------------- rand, pprof

func Rand_Intn(n int) int       { return rIO.intn(n) }
func Rand_Int() int             { return int(rIO.next() >> 1) }
func Rand_Float64() float64     { return rIO.float() }
func Rand_Seed(int64)           {}
func Rand_Int63() int64         { return int64(rIO.next() >> 1) }
func Rand_Int31n(n int32) int32 { return int32(rIO.intn(int(n))) }
func Rand_Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, rIO.intn(i+1))
	}
}

func Pprof_StartCPUProfile(w interface{ Write([]byte) (int, error) }) error {
	return errors.New("no CPU profile in simulation")
}
func Pprof_StopCPUProfile() {}

var _ = reflect.TypeOf
