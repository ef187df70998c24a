// Package ssync stands in for package sync.
package ssync

import (
	"sync"

	"github.com/initia-labs/minievm/verifmc/sched"
)

// Mutex stands in for sync.Mutex.
type Mutex struct{ l sched.Lock }

func (m *Mutex) Lock()         { m.l.Lock() }
func (m *Mutex) Unlock()       { m.l.Unlock() }
func (m *Mutex) TryLock() bool { return m.l.TryLock() }

type lock = sched.Lock

type (
	RWMutex   struct{ lock }
	WaitGroup = sched.Group
	Once      = sched.One
	Cond      = sched.Condition
	Map       = sync.Map
	Pool      = sync.Pool
	Locker    = sync.Locker
)

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker gives a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// NewCond stands in for sync.NewCond.
func NewCond(l Locker) *Cond { return sched.NewCond(l) }

// OnceFunc stands in for sync.OnceFunc.
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// OnceValue stands in for sync.OnceValue.
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

// OnceValues stands in for sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }
