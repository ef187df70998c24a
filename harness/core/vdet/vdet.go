// Package vdet is what the consensus code is rewritten to call (tools/det): it fixes what a Go program may
// not rely on (the order of maps, the clock) differently for each node, and stops at every function.
package vdet

import (
	"fmt"
	"sort"
	"sync/atomic"
	"time"
	"unsafe"
)

// Node is how the code of one node is run.
type Node struct {
	Desc bool              // maps are walked backwards
	Skew time.Duration     // what its clock is off
	Hook func(name string) // called at the start of every function
}

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

var on atomic.Int64

// As runs f, and the goroutines it starts, as the node's code.
func As(n *Node, f func()) {
	old := getLabel()
	setLabel(unsafe.Pointer(n))
	on.Add(1)
	defer func() {
		on.Add(-1)
		setLabel(old)
	}()
	f()
}

func cur() *Node {
	if on.Load() == 0 {
		return nil
	}
	return (*Node)(getLabel())
}

// Point is the start of a function.
func Point(name string) {
	if n := cur(); n != nil && n.Hook != nil {
		n.Hook(name)
	}
}

// Now is the node's clock.
func Now() time.Time {
	if n := cur(); n != nil {
		return time.Now().Add(n.Skew)
	}
	return time.Now()
}

// Pair is an entry of a map being walked.
type Pair[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live says whether the entry is still there.
func (p Pair[K, V]) Live() bool { _, ok := p.m[p.K]; return ok }

// V is its value.
func (p Pair[K, V]) V() V { return p.m[p.K] }

// Pairs lists a map's entries in the node's order.
func Pairs[M ~map[K]V, K comparable, V any](m M) []Pair[K, V] {
	type kv struct {
		s string
		p Pair[K, V]
	}
	l := make([]kv, 0, len(m))
	n := cur()
	for k := range m {
		e := kv{p: Pair[K, V]{k, m}}
		if n != nil {
			e.s = fmt.Sprint(k)
		}
		l = append(l, e)
	}
	if n != nil {
		sort.SliceStable(l, func(i, j int) bool {
			if n.Desc {
				return l[i].s > l[j].s
			}
			return l[i].s < l[j].s
		})
	}
	out := make([]Pair[K, V], len(l))
	for i := range l {
		out[i] = l[i].p
	}
	return out
}
