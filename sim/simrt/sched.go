// Package verifsimrt is the deterministic simulator the instrumented program
// runs in: one goroutine holds the token at any time, a seeded scheduler
// decides who gets it next.
package verifsimrt

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- PRNG

type prng struct{ s uint64 }

func newPrng(seed uint64, stream string) *prng {
	h := uint64(14695981039346656037)
	for i := 0; i < len(stream); i++ {
		h = (h ^ uint64(stream[i])) * 1099511628211
	}
	p := &prng{seed*0x9E3779B97F4A7C15 ^ h}
	p.next()
	return p
}

func (p *prng) next() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (p *prng) intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.next() % uint64(n))
}

func (p *prng) float() float64 { return float64(p.next()>>11) / (1 << 53) }

// ---------------------------------------------------------------- state

type G struct {
	id      int
	name    string
	wake    chan struct{}
	state   int // 0 runnable, 1 running, 2 blocked, 3 done
	on      string
	prio    uint64
	started bool
	sel     *selWait
	delayed int
	since   int64 // decision at which it last became runnable or ran
}

const (
	gRunnable = iota
	gRunning
	gBlocked
	gDone
)

type timer struct {
	at   int64
	seq  int64
	fire func()
	dead bool
}

var (
	cfg      Config
	res      Result
	cur      *G
	mainG    *G
	gs       []*G
	runq     []*G // runnable, not running; sorted by id
	timers   []*timer
	timerSeq int64
	now      int64 // virtual ns
	steps    int64 // scheduling decisions
	swHash   = uint64(14695981039346656037)
	rSched   *prng
	rMap     *prng
	rPool    *prng
	rTemp    *prng
	rIO      *prng
	rPreempt *prng

	policy     string
	lockedPol  bool
	pctChange  []int64
	pctLow     uint64
	starveID   int
	starveName string
	lastSwitch int64 // ticks at the last change of goroutine
	fairUntil  int64 // decisions up to here are drawn fairly
	ioLatency  float64

	yc           int64 = 1 << 40 // countdown to the next look at the scheduler inside straight code
	ycSet        int64 = 1 << 40
	ticks        int64
	preemptMean  int64
	preemptTicks int64 // countdown in ticks until preemption, -1 never
	replay       bool
	repChoices   []uint8
	repPos       int
	repPre       [][2]int64
	recChoices   []uint8
	recPre       [][2]int64

	draining   bool
	drainSteps int64
	finished   bool
)

const checkTicks = 1 << 20

func init() {
	if os.Getenv("VERIF_SIM_CONFIG") == "" {
		return // imported for its types by the driver
	}
	runtime.GOMAXPROCS(1)
	mainG = &G{id: 0, name: "main", wake: make(chan struct{}, 1), state: gRunning, started: true}
	cur = mainG
	gs = []*G{mainG}
	loadConfig()
}

// setupSched initialises policies from the configuration.
func setupSched() {
	rSched = newPrng(cfg.Seed, "sched")
	rMap = newPrng(cfg.Seed, "map")
	rPool = newPrng(cfg.Seed, "pool")
	rTemp = newPrng(cfg.Seed, "temp")
	rIO = newPrng(cfg.Seed, "io")
	rPreempt = newPrng(cfg.Seed, "preempt")
	rp := newPrng(cfg.Seed, "policy")
	policy = cfg.Policy
	names := []string{"random", "sticky", "pct", "rr", "fifo", "lifo", "starve", "starvename", "slowio", "random"}
	if policy == "" {
		policy = names[rp.intn(len(names))]
	}
	pm := cfg.Preempt
	if pm == 0 {
		pm = []int64{-1, -1, 50000, 20000, 5000, 2000, 500, 100}[rp.intn(8)]
	}
	preemptMean = pm
	if cfg.Trace != nil {
		replay = true
		repChoices = decodeChoices(cfg.Trace.Choices)
		repPre = cfg.Trace.Preempts
	}
	pctChange = nil
	d := 1 + rp.intn(5)
	for i := 0; i < d; i++ {
		pctChange = append(pctChange, int64(rp.intn([]int{50, 300, 2000, 20000}[rp.intn(4)])))
	}
	pctLow = 1 << 30
	mainG.prio = rp.next()>>1 | 1<<40
	starveID = rp.intn(12)
	ioLatency = 0
	if policy == "slowio" {
		ioLatency = []float64{0.05, 0.3, 1}[rp.intn(3)]
	}
	now = cfg.Epoch
	preemptTicks = -1
}

func armPreempt() {
	preemptTicks = -1
	if replay {
		if len(repPre) > 0 {
			preemptTicks = repPre[0][0] - ticks
			if preemptTicks < 1 {
				preemptTicks = 1
			}
		}
	} else if preemptMean <= 0 {
		preemptTicks = 2 << 20 // even then nobody computes forever while others wait
	} else {
		preemptTicks = 1 + int64(rPreempt.next()%uint64(2*preemptMean))
	}
	ycSet = checkTicks
	if preemptTicks > 0 && preemptTicks < ycSet {
		ycSet = preemptTicks
	}
	yc = ycSet
}

// flushTicks brings the statement count and the virtual clock up to date.
func flushTicks() {
	d := ycSet - yc
	if d <= 0 {
		return
	}
	ycSet = yc
	ticks += d
	now += d * 5
	if preemptTicks > 0 {
		preemptTicks -= d
	}
}

func ySlow() {
	flushTicks()
	if finished {
		yc = checkTicks
		ycSet = checkTicks
		return
	}
	if ticks > cfg.MaxTicks {
		endRun("stepcap", 0, "tick budget exhausted")
	}
	if preemptTicks == 0 {
		preempt()
		return
	}
	ycSet = checkTicks
	if preemptTicks > 0 && preemptTicks < ycSet {
		ycSet = preemptTicks
	}
	yc = ycSet
}

// preempt takes the token away in the middle of straight code.
func preempt() {
	t := ticks
	if replay && len(repPre) > 0 && repPre[0][0] <= ticks {
		c := int(repPre[0][1])
		repPre = repPre[1:]
		fireTimers()
		cands := candidates(true)
		if c >= len(cands) {
			c = 0
		}
		recPre = append(recPre, [2]int64{t, int64(c)})
		armPreempt() // before another goroutine runs
		if c > 0 {
			res.Stats.Preemptions++
			switchTo(cands[c], true)
		}
		return
	}
	armPreempt()
	if replay {
		return
	}
	tf := res.Stats.TimersFired
	fireTimers()
	cands := candidates(true)
	c := 0
	if len(cands) > 1 {
		c = 1 + rSched.intn(len(cands)-1)
		if policy == "starve" || policy == "starvename" || policy == "pct" {
			if ticks-lastSwitch < 1<<19 {
				c = choosePolicy(cands)
			} else {
				fairUntil = steps + 20*int64(len(cands))
			}
		}
	}
	if c > 0 || tf != res.Stats.TimersFired {
		recPre = append(recPre, [2]int64{t, int64(c)})
	}
	if c > 0 {
		res.Stats.Preemptions++
		switchTo(cands[c], true)
	}
}

func candidates(curRunnable bool) []*G {
	out := make([]*G, 0, len(runq)+1)
	if curRunnable {
		out = append(out, cur)
	}
	return append(out, runq...)
}

func enqueue(g *G) {
	g.state = gRunnable
	g.since = steps
	i := sort.Search(len(runq), func(i int) bool { return runq[i].id >= g.id })
	runq = append(runq, nil)
	copy(runq[i+1:], runq[i:])
	runq[i] = g
}

func dequeue(g *G) {
	for i, x := range runq {
		if x == g {
			runq = append(runq[:i], runq[i+1:]...)
			return
		}
	}
}

func fireTimers() {
	for len(timers) > 0 && timers[0].at <= now {
		t := timers[0]
		timers = timers[1:]
		if !t.dead {
			res.Stats.TimersFired++
			t.fire()
		}
	}
}

func addTimer(at int64, fire func()) *timer {
	timerSeq++
	t := &timer{at: at, seq: timerSeq, fire: fire}
	i := sort.Search(len(timers), func(i int) bool {
		return timers[i].at > at
	})
	timers = append(timers, nil)
	copy(timers[i+1:], timers[i:])
	timers[i] = t
	return t
}

func onPctChange(n int64) bool {
	for _, x := range pctChange {
		if x == n {
			return true
		}
	}
	return false
}

// maxWait bounds how many decisions may pass over a runnable goroutine:
// unfair policies stay within what a real scheduler could do.
const maxWait = 5000

func choosePolicy(c []*G) int {
	n := len(c)
	if steps >= maxWait || fairUntil > 0 {
		if steps >= fairUntil {
			for _, g := range c {
				if g != cur && steps-g.since > maxWait {
					fairUntil = steps + 20*int64(n)
					break
				}
			}
		}
		if steps < fairUntil {
			return rSched.intn(n)
		}
	}
	switch policy {
	case "sticky":
		if rSched.intn(10) != 0 {
			return 0
		}
		return rSched.intn(n)
	case "pct":
		if onPctChange(steps) {
			pctLow--
			c[0].prio = pctLow
		}
		best := 0
		for i := range c {
			if c[i].prio > c[best].prio {
				best = i
			}
		}
		return best
	case "rr":
		// next id after the current one
		best := -1
		for i := range c {
			if c[i] != cur && c[i].id > cur.id {
				best = i
				break
			}
		}
		if best < 0 {
			best = 0
			for i := range c {
				if c[i].id < c[best].id {
					best = i
				}
			}
		}
		return best
	case "fifo": // lowest id first
		best := 0
		for i := range c {
			if c[i].id < c[best].id {
				best = i
			}
		}
		return best
	case "lifo":
		best := 0
		for i := range c {
			if c[i].id > c[best].id {
				best = i
			}
		}
		return best
	case "starve", "starvename":
		ok := make([]int, 0, n)
		for i := range c {
			victim := c[i].id == starveID
			if policy == "starvename" {
				victim = starveName != "" && c[i].name == starveName
			}
			if !victim {
				ok = append(ok, i)
			}
		}
		if len(ok) == 0 {
			return rSched.intn(n)
		}
		return ok[rSched.intn(len(ok))]
	}
	return rSched.intn(n)
}

func decide(c []*G) int {
	n := len(c)
	if n == 1 {
		return 0
	}
	steps++
	var x int
	if replay {
		if repPos < len(repChoices) {
			x = int(repChoices[repPos])
			repPos++
		}
		if x >= n {
			x = 0
		}
	} else {
		x = choosePolicy(c)
	}
	recChoices = append(recChoices, uint8(x))
	return x
}

// decideN is a recorded decision among n equally legal alternatives (select
// with several ready cases).
func decideN(n int) int {
	if n <= 1 {
		return 0
	}
	steps++
	var x int
	if replay {
		if repPos < len(repChoices) {
			x = int(repChoices[repPos])
			repPos++
		}
		if x >= n {
			x = 0
		}
	} else {
		x = rSched.intn(n)
	}
	recChoices = append(recChoices, uint8(x))
	swHash = (swHash ^ uint64(x+1000)) * 1099511628211
	res.Stats.SelectChoices++
	return x
}

func point() {
	if finished {
		return
	}
	flushTicks()
	now += 200
	if len(timers) > 0 {
		fireTimers()
	}
	if len(runq) == 0 {
		return
	}
	if draining {
		drainSteps++
		if drainSteps > 200000 {
			res.Leaks = append(res.Leaks, "(drain) still running: "+cur.name)
			finish()
		}
	}
	c := candidates(true)
	switchTo(c[decide(c)], true)
}

// park blocks the current goroutine until somebody makes it runnable.
func park(on string) {
	flushTicks()
	g := cur
	g.state = gBlocked
	g.on = on
	next := pickNext()
	if next == g {
		g.state = gRunning
		return
	}
	dispatch(next, g)
}

func pickNext() *G {
	for {
		now += 200
		fireTimers()
		if len(runq) > 0 {
			c := candidates(false)
			n := c[decide(c)]
			dequeue(n)
			return n
		}
		if len(timers) > 0 {
			if timers[0].dead {
				timers = timers[1:]
				continue
			}
			if draining {
				finish()
			}
			if timers[0].at > now {
				res.Stats.ClockJumps++
				now = timers[0].at
			}
			continue
		}
		if draining {
			finish()
		}
		deadlock()
	}
}

func switchTo(n *G, curRunnable bool) {
	g := cur
	if n == g {
		return
	}
	dequeue(n)
	if curRunnable {
		enqueue(g)
	}
	dispatch(n, g)
}

// dispatch hands the token to n; me waits for its next turn (me may be nil).
func dispatch(n, me *G) {
	lastSwitch = ticks
	res.Stats.Switches++
	swHash = (swHash ^ uint64(n.id+1)) * 1099511628211
	if steps > cfg.MaxSteps {
		endRun("stepcap", 0, "step budget exhausted")
	}
	n.state = gRunning
	cur = n
	raceOff()
	n.wake <- struct{}{}
	if me != nil {
		<-me.wake
	}
	raceOn()
}

func ready(g *G) {
	if g.state == gBlocked {
		g.on = ""
		enqueue(g)
	}
}

func deadlock() {
	var b strings.Builder
	for _, g := range gs {
		if g.state == gBlocked {
			fmt.Fprintf(&b, "goroutine %d %s: blocked on %s\n", g.id, g.name, g.on)
		}
	}
	endRun("deadlock", 2, "all goroutines are asleep - deadlock!\n"+b.String())
}

// ---------------------------------------------------------------- goroutines

func newG(name string) *G {
	g := &G{id: len(gs), name: name, wake: make(chan struct{}, 1), on: "start"}
	if rSched != nil {
		g.prio = newPrng(cfg.Seed, "prio"+strconv.Itoa(g.id)).next()>>1 | 1<<40
		if policy == "starvename" && starveName == "" && g.id >= starveID/2 {
			starveName = name
		}
	}
	gs = append(gs, g)
	res.Stats.Goroutines++
	enqueue(g)
	if len(runq)+1 > res.Stats.MaxRunnable {
		res.Stats.MaxRunnable = len(runq) + 1
	}
	return g
}

func gBegin(g *G) {
	raceOff()
	<-g.wake
	raceOn()
}

func gEnd(g *G) {
	if r := recover(); r != nil {
		gPanic(r)
	}
	flushTicks()
	g.state = gDone
	n := pickNext()
	dispatch(n, nil)
}

func gPanic(r interface{}) {
	msg := fmt.Sprintf("panic: %s [goroutine %d %s]", panicString(r), cur.id, cur.name)
	st := trimStack(debug.Stack())
	if draining {
		res.DrainPanic = msg + "\n" + st
		finish()
	}
	stdErr("panic: " + panicString(r) + "\n\ngoroutine " + cur.name + "\n" + st)
	endRun("gpanic", 2, msg+"\n"+st)
}

func panicString(r interface{}) string {
	switch v := r.(type) {
	case error:
		return v.Error()
	case fmt.Stringer:
		return v.String()
	}
	return fmt.Sprint(r)
}

// trimStack keeps function names and positions, drops addresses.
func trimStack(b []byte) string {
	var out bytes.Buffer
	lines := strings.Split(string(b), "\n")
	n := 0
	for i := 1; i+1 < len(lines); i += 2 {
		fn := lines[i]
		if k := strings.LastIndexByte(fn, '('); k > 0 {
			fn = fn[:k]
		}
		pos := strings.TrimSpace(lines[i+1])
		if k := strings.LastIndex(pos, " +0x"); k > 0 {
			pos = pos[:k]
		}
		if strings.Contains(fn, "verifsimrt") || strings.HasPrefix(fn, "runtime") || strings.HasPrefix(fn, "reflect") || strings.HasPrefix(fn, "panic") {
			continue
		}
		if k := strings.LastIndexByte(pos, '/'); k > 0 {
			pos = pos[k+1:]
		}
		fmt.Fprintf(&out, "  %s %s\n", fn, pos)
		n++
		if n > 12 {
			break
		}
	}
	return out.String()
}

// Wrap returns a function of the same type whose body runs as a simulated
// goroutine. The caller starts it with a go statement.
func Wrap[F any](f F, label ...string) F {
	name := "func"
	if len(label) > 0 {
		name = label[0]
	}
	fv := reflect.ValueOf(f)
	if fv.Kind() != reflect.Func || fv.IsNil() {
		panic("go of nil func value")
	}
	g := newG(name)
	w := reflect.MakeFunc(fv.Type(), func(args []reflect.Value) (out []reflect.Value) {
		gBegin(g)
		defer gEnd(g)
		if fv.Type().IsVariadic() {
			return fv.CallSlice(args)
		}
		return fv.Call(args)
	})
	return w.Interface().(F)
}

// The typed forms of Wrap (reflection shares pooled frames between goroutines,
// which would count as synchronisation).
func Wrap0(f func(), label string) func() {
	if f == nil {
		panic("go of nil func value")
	}
	g := newG(label)
	return func() {
		gBegin(g)
		defer gEnd(g)
		f()
	}
}

func Wrap1[T1 any](f func(T1), label string) func(T1) {
	if f == nil {
		panic("go of nil func value")
	}
	g := newG(label)
	return func(a1 T1) {
		gBegin(g)
		defer gEnd(g)
		f(a1)
	}
}

func Wrap2[T1, T2 any](f func(T1, T2), label string) func(T1, T2) {
	if f == nil {
		panic("go of nil func value")
	}
	g := newG(label)
	return func(a1 T1, a2 T2) {
		gBegin(g)
		defer gEnd(g)
		f(a1, a2)
	}
}

func Wrap3[T1, T2, T3 any](f func(T1, T2, T3), label string) func(T1, T2, T3) {
	if f == nil {
		panic("go of nil func value")
	}
	g := newG(label)
	return func(a1 T1, a2 T2, a3 T3) {
		gBegin(g)
		defer gEnd(g)
		f(a1, a2, a3)
	}
}

func Wrap4[T1, T2, T3, T4 any](f func(T1, T2, T3, T4), label string) func(T1, T2, T3, T4) {
	if f == nil {
		panic("go of nil func value")
	}
	g := newG(label)
	return func(a1 T1, a2 T2, a3 T3, a4 T4) {
		gBegin(g)
		defer gEnd(g)
		f(a1, a2, a3, a4)
	}
}

func Wrap5[T1, T2, T3, T4, T5 any](f func(T1, T2, T3, T4, T5), label string) func(T1, T2, T3, T4, T5) {
	if f == nil {
		panic("go of nil func value")
	}
	g := newG(label)
	return func(a1 T1, a2 T2, a3 T3, a4 T4, a5 T5) {
		gBegin(g)
		defer gEnd(g)
		f(a1, a2, a3, a4, a5)
	}
}

func Wrap6[T1, T2, T3, T4, T5, T6 any](f func(T1, T2, T3, T4, T5, T6), label string) func(T1, T2, T3, T4, T5, T6) {
	if f == nil {
		panic("go of nil func value")
	}
	g := newG(label)
	return func(a1 T1, a2 T2, a3 T3, a4 T4, a5 T5, a6 T6) {
		gBegin(g)
		defer gEnd(g)
		f(a1, a2, a3, a4, a5, a6)
	}
}

func Wrap7[T1, T2, T3, T4, T5, T6, T7 any](f func(T1, T2, T3, T4, T5, T6, T7), label string) func(T1, T2, T3, T4, T5, T6, T7) {
	if f == nil {
		panic("go of nil func value")
	}
	g := newG(label)
	return func(a1 T1, a2 T2, a3 T3, a4 T4, a5 T5, a6 T6, a7 T7) {
		gBegin(g)
		defer gEnd(g)
		f(a1, a2, a3, a4, a5, a6, a7)
	}
}

func Wrap8[T1, T2, T3, T4, T5, T6, T7, T8 any](f func(T1, T2, T3, T4, T5, T6, T7, T8), label string) func(T1, T2, T3, T4, T5, T6, T7, T8) {
	if f == nil {
		panic("go of nil func value")
	}
	g := newG(label)
	return func(a1 T1, a2 T2, a3 T3, a4 T4, a5 T5, a6 T6, a7 T7, a8 T8) {
		gBegin(g)
		defer gEnd(g)
		f(a1, a2, a3, a4, a5, a6, a7, a8)
	}
}

// Settle is the scheduling point after a go statement.
func Settle() { point() }

func spawn(name string, f func()) {
	g := newG(name)
	go func() {
		gBegin(g)
		defer gEnd(g)
		f()
	}()
}

// ---------------------------------------------------------------- program end

type exitSignal struct{}

// Main runs the program's main function as simulated goroutine 0.
func Main(f func()) {
	if cur == nil {
		fmt.Fprintln(os.Stderr, "simrt: this is an instrumented build, it runs under the simulator only")
		os.Exit(99)
	}
	ticks, now = 0, cfg.Epoch
	armPreempt()
	func() {
		defer func() {
			if r := recover(); r != nil {
				// deferred functions of main have run, the Go runtime would now
				// print the panic and exit with status 2
				st := trimStack(debug.Stack())
				stdErr("panic: " + panicString(r) + "\n")
				endRun("panic", 2, panicString(r)+"\n"+st)
			}
		}()
		f()
	}()
	// main returned: the process is over for the user. Capture everything, then
	// let the remaining goroutines run to find those that are stuck for good.
	capture("return", 0, "")
	for _, g := range gs {
		if g != mainG && g.state == gBlocked {
			res.BlockedAtExit++
		}
	}
	if cfg.NoDrain {
		finish()
	}
	draining = true
	cfg.MaxTicks = ticks + 2000000000
	cfg.MaxSteps = steps + 1<<40
	mainG.state = gDone
	n := pickNext()
	dispatch(n, nil)
	select {}
}

// endRun ends the simulated process here and now.
func endRun(how string, code int, msg string) {
	if draining {
		if how == "stepcap" {
			res.Leaks = append(res.Leaks, "(drain) runs forever: "+cur.name)
		}
		finish()
	}
	capture(how, code, msg)
	finish()
}

func finish() {
	finished = true
	if draining {
		for _, g := range gs {
			if g != mainG && g.state == gBlocked {
				res.Leaks = append(res.Leaks, fmt.Sprintf("%s: blocked on %s", g.name, g.on))
			}
		}
		sort.Strings(res.Leaks)
	}
	writeResult()
	os.Exit(0)
}

func encodeChoices(c []uint8) string {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	var b strings.Builder
	for i := 0; i < len(c); {
		j := i
		for j < len(c) && c[j] == c[i] {
			j++
		}
		if b.Len() > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(strconv.Itoa(int(c[i])))
		if j-i > 1 {
			b.WriteByte('*')
			b.WriteString(strconv.Itoa(j - i))
		}
		i = j
	}
	return b.String()
}

func decodeChoices(s string) []uint8 {
	var out []uint8
	for _, f := range strings.Fields(s) {
		n := 1
		if k := strings.IndexByte(f, '*'); k > 0 {
			n, _ = strconv.Atoi(f[k+1:])
			f = f[:k]
		}
		v, _ := strconv.Atoi(f)
		for ; n > 0; n-- {
			out = append(out, uint8(v))
		}
	}
	return out
}
