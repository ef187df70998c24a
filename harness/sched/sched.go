// Package sched runs goroutines of the code under test one at a time, at points the explorer
// chooses, and enumerates every schedule within a bound on deviations.
package sched

import (
	"fmt"
	"runtime/debug"
	"sort"
	"sync/atomic"
	"time"
	"unsafe"
)

type kill struct{}

// Thread is one controlled goroutine.
type Thread struct {
	ID    int
	Name  string
	wake  chan struct{}
	cond  func() bool
	done  bool
	label string
	idle  bool
	vc    vclock
}

// S is one run under a schedule.
type S struct {
	threads []*Thread
	back    chan struct{}
	cur     *Thread
	killing bool
	choose  func(n int, free bool, what func(i int) string) int
	Panics  []string
	Steps   int
	Max     int
	Log     []string
	Trace   bool
	now     time.Time
	timers  []*Timer
	ids     int
	Stuck   []string    // blocked threads at the end
	Spin    bool        // the step limit was hit
	Quit    func() bool // says that nothing more is to come
	Learnt  bool        // a lock turned out to be shared, whose points were left out
	Races   []string    // unordered accesses to shared maps and slices
	chans   map[unsafe.Pointer]*hchan
	locs    map[unsafe.Pointer]*location
}

// Timer is a virtual timer.
type Timer struct {
	at     time.Time
	fire   func()
	active bool
}

var active atomic.Pointer[S]

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

// Active is the run in progress, or nil. Goroutines which the run did not start (left over from
// code that ran outside of it) take no part: the run is marked on its goroutines, as a label
// which goroutines hand on to those they start.
func Active() *S {
	s := active.Load()
	if s != nil && getLabel() != unsafe.Pointer(s) {
		return nil
	}
	return s
}

// as performs a run as the active one.
func (s *S) as(f func()) {
	old := getLabel()
	setLabel(unsafe.Pointer(s))
	active.Store(s)
	defer func() {
		active.Store(nil)
		setLabel(old)
	}()
	f()
}

// Go starts a controlled goroutine (plain goroutine outside a run).
func Go(name string, f func()) {
	s := Active()
	if s == nil {
		go f()
		return
	}
	t := &Thread{ID: len(s.threads), Name: name, wake: make(chan struct{})}
	if s.cur != nil {
		t.vc = s.release()
	}
	s.threads = append(s.threads, t)
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(kill); !ok {
					s.Panics = append(s.Panics, fmt.Sprintf("%s: %v\n%s", t.Name, r, debug.Stack()))
				}
			}
			t.done = true
			s.back <- struct{}{}
		}()
		if s.killing {
			panic(kill{})
		}
		f()
	}()
}

// Yield is a scheduling point.
func Yield(label string) { Block(label, nil) }

// Block is a scheduling point after which the goroutine continues only while cond holds.
func Block(label string, cond func() bool) {
	s := Active()
	if s == nil || s.cur == nil {
		return
	}
	t := s.cur
	if s.killing {
		panic(kill{})
	}
	t.cond, t.label = cond, label
	s.back <- struct{}{}
	<-t.wake
	if s.killing {
		panic(kill{})
	}
	t.cond = nil
}

// Idle waits until nothing else can run without time passing.
func Idle() {
	s := on()
	if s == nil {
		return
	}
	t := s.cur
	t.idle = true
	defer func() { t.idle = false }()
	Block("idle", nil)
}

// Cur is the running thread.
func (s *S) Cur() *Thread { return s.cur }

// Now is the virtual time.
func Now() time.Time {
	if s := Active(); s != nil {
		return s.now
	}
	return time.Now()
}

// AddTimer arms fire to run when virtual time reaches d from now.
func (s *S) AddTimer(d time.Duration, fire func()) *Timer {
	t := &Timer{at: s.now.Add(d), fire: fire, active: true}
	s.timers = append(s.timers, t)
	return t
}

// Stop disarms the timer.
func (t *Timer) Stop() bool { a := t.active; t.active = false; return a }

// Reset rearms the timer.
func (s *S) Reset(t *Timer, d time.Duration) bool {
	a := t.active
	t.at, t.active = s.now.Add(d), true
	for _, x := range s.timers {
		if x == t {
			return a
		}
	}
	s.timers = append(s.timers, t)
	return a
}

// Advance moves virtual time by d from within a controlled goroutine, firing due timers in order.
func (s *S) Advance(d time.Duration) {
	end := s.now.Add(d)
	for {
		t := s.next()
		if t == nil || t.at.After(end) {
			break
		}
		s.fire(t)
	}
	s.now = end
}

func (s *S) next() *Timer {
	var b *Timer
	for _, t := range s.timers {
		if t.active && (b == nil || t.at.Before(b.at)) {
			b = t
		}
	}
	return b
}

func (s *S) fire(t *Timer) {
	if t.at.After(s.now) {
		s.now = t.at
	}
	t.active = false
	live := s.timers[:0]
	for _, x := range s.timers {
		if x.active {
			live = append(live, x)
		}
	}
	s.timers = live
	t.fire()
}

// AutoTime lets the explorer advance time to the next timer when it is the only way forward.
var AutoTime = false

func (s *S) loop() {
	for {
		var en, idle []*Thread
		curOK := false
		for _, t := range s.threads {
			if t.done || (t.cond != nil && !t.cond()) {
				continue
			}
			if t.idle {
				idle = append(idle, t)
				continue
			}
			if t == s.cur {
				curOK = true
				continue
			}
			en = append(en, t)
		}
		if curOK {
			en = append([]*Thread{s.cur}, en...)
		}
		if len(en) == 0 {
			en = idle
		}
		if len(en) == 0 {
			if s.Quit != nil && s.Quit() {
				return
			}
			if AutoTime {
				if t := s.next(); t != nil {
					for at := t.at; t != nil && !t.at.After(at); t = s.next() {
						s.fire(t)
					}
					continue
				}
			}
			return
		}
		if s.Steps++; s.Steps > s.Max {
			s.Spin = true
			return
		}
		i := 0
		if len(en) > 1 {
			i = s.choose(len(en), !curOK, func(i int) string { return en[i].Name + "@" + en[i].label })
		}
		s.cur = en[i]
		if s.Trace {
			s.Log = append(s.Log, en[i].Name+"@"+en[i].label)
		}
		s.cur.wake <- struct{}{}
		<-s.back
	}
}

func (s *S) cleanup() {
	for _, t := range s.threads {
		if !t.done {
			s.Stuck = append(s.Stuck, t.Name+"@"+t.label)
		}
	}
	s.killing = true
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		for !t.done {
			s.cur = t
			t.wake <- struct{}{}
			<-s.back
		}
	}
}

type point struct {
	n, i int
	free bool
}

// Stats summarise an exploration.
type Stats struct {
	Schedules, Steps, Points int
	Complete                 bool
}

// Run executes setup under the given choices; setup starts the threads with Go.
func Run(choices []int, max int, trace bool, setup func(s *S)) (*S, []int) {
	var pts []int
	k := 0
	s := &S{back: make(chan struct{}), Max: max, Trace: trace, now: time.Unix(1_700_000_000, 0)}
	s.choose = func(n int, free bool, what func(int) string) int {
		i := 0
		if k < len(choices) {
			i = choices[k]
		}
		k++
		if i >= n {
			i = 0
		}
		pts = append(pts, i)
		return i
	}
	s.as(func() {
		setup(s)
		s.loop()
		s.cleanup()
	})
	return s, pts
}

// DelayBound makes every choice but the first one count as a deviation, also
// where the running thread cannot go on.
var DelayBound bool

// Explore enumerates every schedule with at most bound deviations from running each thread on
// until it blocks, in depth-first order. run is called once per schedule and must start its
// threads; after judges the finished run and returns false to stop.
func Explore(bound, maxSteps int, setup func(s *S), after func(s *S, choices []int) bool, stop func() bool) (st Stats) {
	var stack []point
	for {
		k := 0
		used := 0
		s := &S{back: make(chan struct{}), Max: maxSteps, now: time.Unix(1_700_000_000, 0)}
		s.choose = func(n int, free bool, what func(int) string) int {
			if k < len(stack) {
				p := stack[k]
				if p.n != n {
					panic(fmt.Sprintf("schedule replay diverged at point %d: %d options, had %d", k, n, p.n))
				}
				k++
				if p.i > 0 && (!free || DelayBound) {
					used++
				}
				return p.i
			}
			if used >= bound && (!free || DelayBound) {
				n = 1 // no deviation left: not a branch point
			}
			if n > 1 {
				stack = append(stack, point{n: n, free: free})
				k++
			} else {
				stack = append(stack, point{n: n, free: free, i: 0})
				k++
			}
			return 0
		}
		full := s.choose
		s.choose = func(n int, free bool, what func(int) string) int {
			if k < len(stack) && stack[k].n == 1 && n > 1 {
				k++
				return 0
			}
			return full(n, free, what)
		}
		s.as(func() {
			setup(s)
			s.loop()
			s.cleanup()
		})
		st.Schedules++
		st.Steps += s.Steps
		st.Points += k
		ch := make([]int, len(stack))
		for i, p := range stack {
			ch[i] = p.i
		}
		if !after(s, ch) {
			return st
		}
		if stop != nil && stop() {
			return st
		}
		if s.Learnt {
			stack = stack[:0]
			continue
		}
		for len(stack) > 0 && stack[len(stack)-1].i+1 >= stack[len(stack)-1].n {
			stack = stack[:len(stack)-1]
		}
		if len(stack) == 0 {
			st.Complete = true
			return st
		}
		stack[len(stack)-1].i++
	}
}

// Reached says whether the named thread waits at the labelled point.
func (s *S) Reached(thread, label string) bool {
	for _, t := range s.threads {
		if t.Name == thread && t.label == label && !t.done {
			return true
		}
	}
	return false
}

// NoStmts leaves out the points before single statements.
var NoStmts bool

// Stmt is the point before a statement of a file looked at in that detail.
func Stmt(where string) {
	if !NoStmts {
		Yield(where)
	}
}

var ids atomic.Int64

// SeqID stands in for random identifiers, so that runs repeat.
func SeqID() string {
	if s := on(); s != nil {
		s.ids++
		return fmt.Sprintf("0x%x", 1<<20+s.ids)
	}
	return fmt.Sprintf("0x%x", 1<<40+ids.Add(1))
}

// Keys gives the keys of a map in an order the explorer chooses.
func Keys[M ~map[K]V, K comparable, V any](where string, m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	s := on()
	if s == nil || len(ks) < 2 {
		return ks
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for i := 0; i < len(ks)-1; i++ {
		j := i + s.Pick(len(ks)-i, where+" order")
		k := ks[j]
		copy(ks[i+1:j+1], ks[i:j])
		ks[i] = k
	}
	return ks
}

// Live counts the goroutines that have not ended.
func (s *S) Live() (n int) {
	for _, t := range s.threads {
		if !t.done {
			n++
		}
	}
	return
}
