package sched

import (
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"time"
	"unsafe"
)

// ---- happens-before

type vclock []int

func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

func (v vclock) copy() vclock { return append(vclock(nil), v...) }

func (t *Thread) tick() {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

// release gives the clock to hand over, acquire takes one.
func (s *S) release() vclock {
	if s.cur == nil {
		return nil
	}
	s.cur.tick()
	return s.cur.vc.copy()
}

func (s *S) acquire(v vclock) {
	if s.cur != nil {
		s.cur.vc = s.cur.vc.join(v)
	}
}

type access struct {
	t     *Thread
	at    int
	where string
}

type location struct {
	w  *access
	rs map[int]access
}

// Access records that the running thread reads or writes a shared map or
// slice, and reports accesses which nothing orders.
func Access(where, name string, addr func() any, write bool) {
	s := Active()
	if s == nil || s.cur == nil || s.killing {
		return
	}
	var p unsafe.Pointer
	func() {
		defer func() { recover() }()
		p = reflect.ValueOf(addr()).UnsafePointer()
	}()
	if p == nil {
		return
	}
	if s.locs == nil {
		s.locs = map[unsafe.Pointer]*location{}
	}
	l := s.locs[p]
	if l == nil {
		l = &location{rs: map[int]access{}}
		s.locs[p] = l
	}
	t := s.cur
	t.tick()
	ordered := func(a access) bool {
		return a.t == t || (a.t.ID < len(t.vc) && t.vc[a.t.ID] >= a.at)
	}
	race := func(a access, what string) {
		s.Races = append(s.Races, fmt.Sprintf("%s: %s at %s and %s at %s are not ordered", name, what, a.where, map[bool]string{true: "write", false: "read"}[write], where))
	}
	if l.w != nil && !ordered(*l.w) {
		race(*l.w, "write")
	}
	if write {
		for _, a := range l.rs {
			if !ordered(a) {
				race(a, "read")
			}
		}
		l.w = &access{t, t.vc[t.ID], where}
		l.rs = map[int]access{}
		return
	}
	l.rs[t.ID] = access{t, t.vc[t.ID], where}
}

// ---- channels

type waiter struct {
	t    *Thread
	done bool
	idx  int // case chosen
	val  any
	ok   bool
	vc   vclock // handed over by the partner
	vcs  vclock // of the parked thread
}

type parked struct {
	w   *waiter
	idx int
	val any
}

type item struct {
	val any
	vc  vclock
}

type hchan struct {
	real   reflect.Value
	cap    int
	buf    []item
	sendq  []parked
	recvq  []parked
	closed bool
	vc     vclock
}

func (s *S) hchan(ch reflect.Value) *hchan {
	p := ch.UnsafePointer()
	if s.chans == nil {
		s.chans = map[unsafe.Pointer]*hchan{}
	}
	h := s.chans[p]
	if h == nil {
		h = &hchan{real: ch, cap: ch.Cap()}
		s.chans[p] = h
	}
	return h
}

func live(q []parked) []parked {
	for len(q) > 0 && q[0].w.done {
		q = q[1:]
	}
	return q
}

// poll looks at the real channel, which code outside the exploration may close
// or fill.
func (h *hchan) poll() {
	if h.real.Type().ChanDir()&reflect.RecvDir == 0 || h.closed {
		return
	}
	for {
		v, ok := h.real.TryRecv()
		if !v.IsValid() {
			return
		}
		if !ok {
			h.closed = true
			return
		}
		h.buf = append(h.buf, item{val: v.Interface()})
	}
}

func (h *hchan) canRecv() bool {
	h.poll()
	h.sendq = live(h.sendq)
	return len(h.buf) > 0 || len(h.sendq) > 0 || h.closed
}

func (h *hchan) canSend() bool {
	h.recvq = live(h.recvq)
	return h.closed || len(h.recvq) > 0 || len(h.buf) < h.cap
}

func (s *S) doRecv(h *hchan) (any, bool) {
	h.sendq = live(h.sendq)
	if len(h.buf) > 0 {
		it := h.buf[0]
		h.buf = h.buf[1:]
		s.acquire(it.vc)
		if h.sendq = live(h.sendq); len(h.sendq) > 0 { // the next sender moves up
			p := h.sendq[0]
			h.sendq = h.sendq[1:]
			p.w.done, p.w.idx = true, p.idx
			h.buf = append(h.buf, item{p.val, p.w.vcs})
		}
		return it.val, true
	}
	if len(h.sendq) > 0 {
		p := h.sendq[0]
		h.sendq = h.sendq[1:]
		p.w.done, p.w.idx = true, p.idx
		p.w.vc = s.release()
		s.acquire(p.w.vcs)
		return p.val, true
	}
	s.acquire(h.vc)
	return nil, false // closed
}

func (s *S) doSend(h *hchan, v any) {
	if h.closed {
		panic("send on closed channel")
	}
	h.recvq = live(h.recvq)
	if len(h.recvq) > 0 {
		p := h.recvq[0]
		h.recvq = h.recvq[1:]
		p.w.done, p.w.idx, p.w.val, p.w.ok = true, p.idx, v, true
		p.w.vc = s.release()
		s.acquire(p.w.vcs)
		return
	}
	h.buf = append(h.buf, item{v, s.release()})
}

// Case is one case of a select.
type Case interface {
	ch() reflect.Value
	send() (any, bool)
	got(v any, ok bool)
}

type sendCase struct {
	c reflect.Value
	v any
}

func (c *sendCase) ch() reflect.Value { return c.c }
func (c *sendCase) send() (any, bool) { return c.v, true }
func (c *sendCase) got(any, bool)     {}

// RecvC is a receive case.
type RecvC[T any] struct {
	c   reflect.Value
	Val T
	Ok  bool
}

func (c *RecvC[T]) ch() reflect.Value { return c.c }
func (c *RecvC[T]) send() (any, bool) { return nil, false }
func (c *RecvC[T]) got(v any, ok bool) {
	c.Ok = ok
	if v != nil {
		c.Val = v.(T)
	} else {
		var z T
		c.Val = z
	}
}

// SendCase makes a send case.
func SendCase[T any](ch chan<- T, v T) Case { return &sendCase{reflect.ValueOf(ch), v} }

// RecvCase makes a receive case.
func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{c: reflect.ValueOf(ch)} }

// Select runs a select statement and gives the index of the case taken, -1
// for the default.
func Select(where string, def bool, cases ...Case) int {
	s := Active()
	if s == nil || s.cur == nil {
		return realSelect(def, cases)
	}
	Yield(where)
	var ready []int
	hs := make([]*hchan, len(cases))
	for i, c := range cases {
		v := c.ch()
		if v.IsNil() {
			continue
		}
		hs[i] = s.hchan(v)
		if _, snd := c.send(); (snd && hs[i].canSend()) || (!snd && hs[i].canRecv()) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[s.Pick(len(ready), where+" case")]
		}
		if v, snd := cases[i].send(); snd {
			s.doSend(hs[i], v)
		} else {
			cases[i].got(s.doRecv(hs[i]))
		}
		return i
	}
	if def {
		return -1
	}
	w := &waiter{t: s.cur, vcs: s.release()}
	for i, c := range cases {
		if hs[i] == nil {
			continue
		}
		if v, snd := c.send(); snd {
			hs[i].sendq = append(hs[i].sendq, parked{w, i, v})
		} else {
			hs[i].recvq = append(hs[i].recvq, parked{w, i, nil})
		}
	}
	ext := func() int { // something outside closed or filled a channel
		for i, c := range cases {
			if _, snd := c.send(); hs[i] != nil && !snd {
				h := hs[i]
				if !h.closed && len(h.buf) == 0 {
					h.poll()
				}
				if h.closed || len(h.buf) > 0 {
					return i
				}
			}
		}
		return -1
	}
	Block(where, func() bool { return w.done || ext() >= 0 })
	if !w.done {
		i := ext()
		w.done, w.idx = true, i
		cases[i].got(s.doRecv(hs[i]))
		return i
	}
	s.acquire(w.vc)
	if w.idx >= 0 {
		if _, snd := cases[w.idx].send(); snd {
			if hs[w.idx].closed && !w.ok && w.vc == nil && w.val == any(closedMark{}) {
				panic("send on closed channel")
			}
		} else {
			cases[w.idx].got(w.val, w.ok)
		}
	}
	return w.idx
}

type closedMark struct{}

func realSelect(def bool, cases []Case) int {
	var rc []reflect.SelectCase
	for _, c := range cases {
		if v, snd := c.send(); snd {
			x := reflect.ValueOf(v)
			if !x.IsValid() {
				x = reflect.Zero(c.ch().Type().Elem())
			}
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectSend, Chan: c.ch(), Send: x})
		} else {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: c.ch()})
		}
	}
	if def {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return -1
	}
	if _, snd := cases[i].send(); !snd {
		var x any
		if v.IsValid() {
			x = v.Interface()
		}
		cases[i].got(x, ok)
	}
	return i
}

// Send is ch <- v.
func Send[T any](where string, ch chan<- T, v T) {
	if s := Active(); s == nil || s.cur == nil {
		ch <- v
		return
	}
	Select(where, false, SendCase(ch, v))
}

// Recv is <-ch.
func Recv[T any](where string, ch <-chan T) T {
	v, _ := Recv2(where, ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](where string, ch <-chan T) (T, bool) {
	if s := Active(); s == nil || s.cur == nil {
		v, ok := <-ch
		return v, ok
	}
	c := RecvCase(ch)
	Select(where, false, c)
	return c.Val, c.Ok
}

// Close is close(ch).
func Close[T any](where string, ch chan<- T) {
	s := Active()
	if s == nil || s.cur == nil {
		close(ch)
		return
	}
	Yield(where)
	h := s.hchan(reflect.ValueOf(ch))
	if h.closed {
		panic("close of closed channel")
	}
	h.closed = true
	h.vc = s.release()
	for _, p := range h.recvq {
		if !p.w.done {
			p.w.done, p.w.idx, p.w.val, p.w.ok, p.w.vc = true, p.idx, nil, false, h.vc
		}
	}
	for _, p := range h.sendq {
		if !p.w.done {
			p.w.done, p.w.idx, p.w.val = true, p.idx, closedMark{}
		}
	}
}

// Pick is a choice of the explorer; anything but the first costs a deviation.
func (s *S) Pick(n int, label string) int {
	return s.choose(n, false, func(i int) string { return fmt.Sprintf("%s %d", label, i) })
}

// ---- time

// TimeTimer stands in for time.Timer.
type TimeTimer struct {
	C    <-chan time.Time
	c    chan time.Time
	t    *Timer
	real *time.Timer
	f    func()
}

func (s *S) post(c chan time.Time) {
	h := s.hchan(reflect.ValueOf(c))
	h.recvq = live(h.recvq)
	if len(h.recvq) > 0 {
		p := h.recvq[0]
		h.recvq = h.recvq[1:]
		p.w.done, p.w.idx, p.w.val, p.w.ok = true, p.idx, s.now, true
		return
	}
	if len(h.buf) < h.cap {
		h.buf = append(h.buf, item{val: s.now})
	}
}

func on() *S {
	if s := Active(); s != nil && s.cur != nil {
		return s
	}
	return nil
}

// TimeNow stands in for time.Now.
func TimeNow() time.Time { return Now() }

// TimeSince stands in for time.Since.
func TimeSince(t time.Time) time.Duration { return Now().Sub(t) }

// TimeUntil stands in for time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(Now()) }

// TimeNewTimer stands in for time.NewTimer.
func TimeNewTimer(d time.Duration) *TimeTimer {
	s := on()
	if s == nil {
		r := time.NewTimer(d)
		return &TimeTimer{C: r.C, real: r}
	}
	c := make(chan time.Time, 1)
	t := &TimeTimer{C: c, c: c}
	t.t = s.AddTimer(d, func() { s.post(c) })
	return t
}

// TimeAfter stands in for time.After.
func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

// TimeAfterFunc stands in for time.AfterFunc.
func TimeAfterFunc(d time.Duration, f func()) *TimeTimer {
	s := on()
	if s == nil {
		return &TimeTimer{real: time.AfterFunc(d, f)}
	}
	t := &TimeTimer{f: f}
	t.t = s.AddTimer(d, func() { Go("timer", f) })
	return t
}

// Stop stands in for (*time.Timer).Stop.
func (t *TimeTimer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	return t.t.Stop()
}

// Reset stands in for (*time.Timer).Reset.
func (t *TimeTimer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	if s := Active(); s != nil {
		return s.Reset(t.t, d)
	}
	return false
}

// TimeTicker stands in for time.Ticker.
type TimeTicker struct {
	C    <-chan time.Time
	t    *Timer
	d    time.Duration
	stop bool
	real *time.Ticker
}

// TimeNewTicker stands in for time.NewTicker.
func TimeNewTicker(d time.Duration) *TimeTicker {
	s := on()
	if s == nil {
		r := time.NewTicker(d)
		return &TimeTicker{C: r.C, real: r}
	}
	c := make(chan time.Time, 1)
	t := &TimeTicker{C: c, d: d}
	var fire func()
	fire = func() {
		if t.stop {
			return
		}
		s.post(c)
		t.t = s.AddTimer(t.d, fire)
	}
	t.t = s.AddTimer(d, fire)
	return t
}

// Stop stands in for (*time.Ticker).Stop.
func (t *TimeTicker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.stop = true
	t.t.Stop()
}

// Reset stands in for (*time.Ticker).Reset.
func (t *TimeTicker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.d = d
	if s := Active(); s != nil {
		s.Reset(t.t, d)
	}
}

// TimeTick stands in for time.Tick.
func TimeTick(d time.Duration) <-chan time.Time { return TimeNewTicker(d).C }

// TimeSleep stands in for time.Sleep.
func TimeSleep(d time.Duration) {
	s := on()
	if s == nil {
		time.Sleep(d)
		return
	}
	done := false
	s.AddTimer(d, func() { done = true })
	Block("sleep", func() bool { return done })
}

// ---- locks

// Lock is a lock the explorer runs; W is its writer, R its readers.
//
// Taking it is a scheduling point if another thread uses it, too: which lock
// sites that concerns is learnt over the runs of an exploration, and Explore
// starts over when it learns one. Giving it back is none; what runs until the
// next point is ordered or reported as a race.
type Lock struct {
	real sync.RWMutex
	w    bool
	r    int
	vc   vclock // of the last releases
	in   *S     // the run below is about
	by   *Thread
	pcs  []uintptr
	many bool
}

var sharedSites = map[uintptr]bool{}

// point is the scheduling point of taking the lock.
func (l *Lock) point(s *S, label string, free func() bool) {
	var pc [1]uintptr
	runtime.Callers(4, pc[:])
	if l.in != s {
		l.in, l.by, l.pcs, l.many = s, s.cur, l.pcs[:0], false
	}
	if l.by != s.cur {
		l.many = true
	}
	known := false
	for _, x := range l.pcs {
		known = known || x == pc[0]
	}
	if !known {
		l.pcs = append(l.pcs, pc[0])
	}
	if l.many {
		for _, x := range l.pcs {
			if !sharedSites[x] {
				sharedSites[x], s.Learnt = true, true
			}
		}
	}
	if s.killing {
		panic(kill{})
	}
	if free == nil {
		if sharedSites[pc[0]] {
			Block(label, nil)
		}
		return
	}
	if sharedSites[pc[0]] || !free() {
		Block(label, free)
	}
}

// Lock takes it for writing.
func (l *Lock) Lock() {
	s := on()
	if s == nil {
		l.real.Lock()
		l.w = true
		return
	}
	l.point(s, "lock", func() bool { return !l.w && l.r == 0 })
	l.w = true
	s.acquire(l.vc)
}

// TryLock takes it for writing if free.
func (l *Lock) TryLock() bool {
	s := on()
	if s == nil {
		ok := l.real.TryLock()
		if ok {
			l.w = true
		}
		return ok
	}
	l.point(s, "trylock", nil)
	if l.w || l.r > 0 {
		return false
	}
	l.w = true
	s.acquire(l.vc)
	return true
}

// Unlock gives it back.
func (l *Lock) Unlock() {
	s := on()
	if s == nil {
		l.w = false
		l.real.Unlock()
		return
	}
	if s.killing {
		l.w = false
		return
	}
	if !l.w {
		panic("unlock of unlocked mutex")
	}
	l.w = false
	l.vc = l.vc.join(s.release())
}

// RLock takes it for reading.
func (l *Lock) RLock() {
	s := on()
	if s == nil {
		l.real.RLock()
		return
	}
	l.point(s, "rlock", func() bool { return !l.w })
	l.r++
	s.acquire(l.vc)
}

// TryRLock takes it for reading if free.
func (l *Lock) TryRLock() bool {
	s := on()
	if s == nil {
		return l.real.TryRLock()
	}
	l.point(s, "tryrlock", nil)
	if l.w {
		return false
	}
	l.r++
	s.acquire(l.vc)
	return true
}

// RUnlock gives it back.
func (l *Lock) RUnlock() {
	s := on()
	if s == nil {
		l.real.RUnlock()
		return
	}
	if s.killing {
		if l.r > 0 {
			l.r--
		}
		return
	}
	if l.r == 0 {
		panic("runlock of unlocked mutex")
	}
	l.r--
	l.vc = l.vc.join(s.release())
}

// Group is a wait group the explorer runs.
type Group struct {
	real sync.WaitGroup
	n    int
	vc   vclock
}

// Add adds to the counter.
func (g *Group) Add(d int) {
	s := on()
	if s == nil {
		g.real.Add(d)
		return
	}
	if g.n += d; g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		g.vc = g.vc.join(s.release())
	}
}

// Done takes one off.
func (g *Group) Done() { g.Add(-1) }

// Wait waits for zero.
func (g *Group) Wait() {
	s := on()
	if s == nil {
		g.real.Wait()
		return
	}
	Block("wait", func() bool { return g.n == 0 })
	s.acquire(g.vc)
}

// Go runs f in the group.
func (g *Group) Go(f func()) {
	g.Add(1)
	Go("group", func() { defer g.Done(); f() })
}

// One runs a function once.
type One struct {
	m    Lock
	done bool
}

// Do runs f the first time.
func (o *One) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Condition is a condition variable the explorer runs.
type Condition struct {
	L    sync.Locker
	real *sync.Cond
	q    []*bool
	vc   vclock
}

// NewCond makes one.
func NewCond(l sync.Locker) *Condition { return &Condition{L: l, real: sync.NewCond(l)} }

// Wait waits for a signal.
func (c *Condition) Wait() {
	s := on()
	if s == nil {
		c.real.Wait()
		return
	}
	woke := false
	c.q = append(c.q, &woke)
	c.L.Unlock()
	Block("cond", func() bool { return woke })
	s.acquire(c.vc)
	c.L.Lock()
}

// Signal wakes one.
func (c *Condition) Signal() {
	s := on()
	if s == nil {
		c.real.Signal()
		return
	}
	c.vc = c.vc.join(s.release())
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

// Broadcast wakes all.
func (c *Condition) Broadcast() {
	s := on()
	if s == nil {
		c.real.Broadcast()
		return
	}
	c.vc = c.vc.join(s.release())
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}
