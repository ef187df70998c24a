// Package conc explores the parts of the node that run concurrently: the index
// store, announcements, filters and submissions.
package conc

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"unsafe"

	"cosmossdk.io/store/dbadapter"
	bigcache "github.com/allegro/bigcache/v3"
	"github.com/allegro/bigcache/v3/queue"
	dbm "github.com/cosmos/cosmos-db"

	"github.com/initia-labs/minievm/indexer"
	. "github.com/initia-labs/minievm/verifmc/core"
	"github.com/initia-labs/minievm/verifmc/sched"
)

func fnv64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// x03Keys: two keys the cache cannot tell apart by hash, and one that lives
// in the same part of it (so that filling it throws the others out).
var x03Keys = func() []string {
	a, b := "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"
	if fnv64(a) != fnv64(b) {
		panic("the colliding keys do not collide")
	}
	for i := 0; ; i++ {
		k := fmt.Sprintf("a%05d", i)
		if fnv64(k)&1023 == fnv64(a)&1023 {
			return []string{a, b, k}
		}
	}
}()

func val(tag byte, n int) []byte { return bytes.Repeat([]byte{tag}, n) }

var x03Vals = [][]byte{{}, val('s', 8), val('m', 700), val('h', 3000)}

type x03Op struct {
	name string
	kind byte // g, h, s, d, i, r, w, n
	k    int
	v    []byte
	lo   int // iteration bounds, -1 open
	hi   int
}

func x03Ops(c *Check) []x03Op {
	var out []x03Op
	for k := range x03Keys {
		out = append(out, x03Op{name: fmt.Sprintf("get %d", k), kind: 'g', k: k},
			x03Op{name: fmt.Sprintf("has %d", k), kind: 'h', k: k},
			x03Op{name: fmt.Sprintf("delete %d", k), kind: 'd', k: k})
		for _, v := range x03Vals {
			out = append(out, x03Op{name: fmt.Sprintf("set %d to %d bytes", k, len(v)), kind: 's', k: k, v: v})
		}
	}
	return append(out, x03Op{name: "write", kind: 'w'}, x03Op{name: "reopen", kind: 'n'},
		x03Op{name: "iterate all", kind: 'i', lo: -1, hi: -1}, x03Op{name: "iterate back all", kind: 'r', lo: -1, hi: -1})
}

type x03Sys struct {
	pool  *pool
	db    *dbm.MemDB
	cs    *indexer.CacheStore
	m     map[string][]byte // what an ordinary map holds
	under map[string][]byte // what has been flushed
}

func x03New(p *pool) *x03Sys {
	s := &x03Sys{pool: p, db: dbm.NewMemDB(), m: map[string][]byte{}, under: map[string][]byte{}}
	// one entry that was there before
	s.db.Set([]byte(x03Keys[1]), []byte("old"))
	s.m[x03Keys[1]], s.under[x03Keys[1]] = []byte("old"), []byte("old")
	s.open()
	return s
}

// below is the store under the cache; it can be turned away for a moment.
type below struct {
	dbadapter.Store
	off bool
}

func (b *below) Set(k, v []byte) {
	if !b.off {
		b.Store.Set(k, v)
	}
}

func (b *below) Delete(k []byte) {
	if !b.off {
		b.Store.Delete(k)
	}
}

func bigOf(cs *indexer.CacheStore) *bigcache.BigCache {
	v := reflect.ValueOf(cs).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf((*bigcache.BigCache)(nil)) && !f.IsNil() {
			return (*bigcache.BigCache)(f.UnsafePointer())
		}
	}
	return nil
}

// closeCache stops the cleaner that every cache leaves running.
func closeCache(cs *indexer.CacheStore) {
	if cs != nil {
		if b := bigOf(cs); b != nil {
			b.Close()
		}
	}
}

// pool keeps one cache store, emptied between uses: making one takes 20 MB.
// What is found with it is confirmed with a new one.
type pool struct {
	cs *indexer.CacheStore
	b  *below
}

func (p *pool) open(db *dbm.MemDB) *indexer.CacheStore {
	if p.cs == nil {
		p.b = &below{Store: dbadapter.Store{DB: db}}
		p.cs = indexer.NewCacheStore(p.b, 1)
		return p.cs
	}
	p.b.off = true
	p.cs.Write()
	p.b.off = false
	p.b.Store.DB = db
	big := bigOf(p.cs)
	if big == nil {
		p.cs = nil
		return p.open(db)
	}
	sh := reflect.ValueOf(big).Elem().FieldByName("shards").Index(int(fnv64(x03Keys[0]) & 1023)).Elem()
	clear(*(*map[uint64]uint32)(unsafe.Pointer(sh.FieldByName("hashmap").UnsafeAddr())))
	(*queue.BytesQueue)(unsafe.Pointer(sh.FieldByName("entries").UnsafeAddr())).Reset()
	return p.cs
}

func (s *x03Sys) open() {
	if s.pool != nil {
		s.cs = s.pool.open(s.db)
		return
	}
	closeCache(s.cs)
	s.cs = indexer.NewCacheStore(dbadapter.Store{DB: s.db}, 1)
}

func show(v []byte) string {
	if v == nil {
		return "nothing"
	}
	if len(v) > 12 {
		return fmt.Sprintf("%d×%q", len(v), v[0])
	}
	return fmt.Sprintf("%q", v)
}

func cp(m map[string][]byte) map[string][]byte {
	o := map[string][]byte{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (s *x03Sys) get(k string) string {
	v, err := s.cs.Get([]byte(k))
	want, ok := s.m[k]
	if err != nil {
		return fmt.Sprintf("reading fails: %v", err)
	}
	if ok != (v != nil) || !bytes.Equal(v, want) {
		if !ok {
			want = nil
		}
		return fmt.Sprintf("reading gives %s, an ordinary map %s", show(v), show(want))
	}
	return ""
}

func (s *x03Sys) has(k string) string {
	h, err := s.cs.Has([]byte(k))
	_, ok := s.m[k]
	if err != nil || h != ok {
		return fmt.Sprintf("the existence check says %v %v, an ordinary map %v", h, err, ok)
	}
	return ""
}

func (s *x03Sys) iter(lo, hi []byte, back bool) string {
	var got, want []string
	it, err := s.cs.Iterator(lo, hi)
	if back {
		if err == nil {
			it.Close()
		}
		it, err = s.cs.ReverseIterator(lo, hi)
	}
	if err != nil {
		return "iterating fails: " + err.Error()
	}
	for ; it.Valid(); it.Next() {
		got = append(got, string(it.Key())+"="+show(it.Value()))
	}
	it.Close()
	for k, v := range s.m {
		if (lo == nil || k >= string(lo)) && (hi == nil || k < string(hi)) {
			want = append(want, k+"="+show(v))
		}
	}
	sort.Strings(want)
	if back {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("iterating (back %v) gives %v, an ordinary map %v", back, got, want)
	}
	return ""
}

func (s *x03Sys) underDiff() string {
	n := 0
	it, _ := s.db.Iterator(nil, nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		n++
		if w, ok := s.under[string(it.Key())]; !ok || !bytes.Equal(w, it.Value()) {
			return fmt.Sprintf("the store below holds %s=%s, flushed was %s", it.Key(), show(it.Value()), show(w))
		}
	}
	if n != len(s.under) {
		return fmt.Sprintf("the store below holds %d entries, flushed were %d", n, len(s.under))
	}
	return ""
}

// do runs an operation on both and returns a difference.
func (s *x03Sys) do(o x03Op) (d string) {
	if p := Try(func() {
		k := x03Keys[o.k]
		switch o.kind {
		case 'g':
			d = s.get(k)
		case 'h':
			d = s.has(k)
		case 's':
			s.m[k] = o.v
			if err := s.cs.Set([]byte(k), append([]byte{}, o.v...)); err != nil {
				d = "writing fails: " + err.Error()
			}
		case 'd':
			delete(s.m, k)
			if err := s.cs.Delete([]byte(k)); err != nil {
				d = "deleting fails: " + err.Error()
			}
		case 'w':
			s.cs.Write()
			s.under = cp(s.m)
		case 'n': // a node that stops here and starts again
			s.open()
			s.m = cp(s.under)
		case 'i', 'r':
			var lo, hi []byte
			d = s.iter(lo, hi, o.kind == 'r')
		}
	}); p != "" {
		return "panic: " + p
	}
	if d == "" {
		d = s.underDiff()
	}
	return d
}

// audit reads everything in every way.
func (s *x03Sys) audit() (d string) {
	if p := Try(func() {
		for lo := -1; lo < len(x03Keys); lo++ {
			for hi := -1; hi < len(x03Keys); hi++ {
				var l, h []byte
				if lo >= 0 {
					l = []byte(x03Keys[lo])
				}
				if hi >= 0 {
					h = []byte(x03Keys[hi])
				}
				if l != nil && h != nil && bytes.Compare(l, h) >= 0 {
					continue
				}
				for _, back := range []bool{false, true} {
					if d = s.iter(l, h, back); d != "" {
						return
					}
				}
			}
		}
		for _, k := range x03Keys {
			if d = s.has(k); d != "" {
				d = "key " + k + ": " + d
				return
			}
			if d = s.get(k); d != "" {
				d = "key " + k + ": " + d
				return
			}
		}
		if d = s.underDiff(); d != "" {
			return
		}
		s.cs.Write()
		s.under = cp(s.m)
		if d = s.underDiff(); d != "" {
			d = "after a flush " + d
			return
		}
		for _, k := range x03Keys {
			if d = s.get(k); d != "" {
				d = "after a flush, key " + k + ": " + d
				return
			}
		}
		s.open()
		for _, k := range x03Keys {
			if d = s.get(k); d != "" {
				d = "after a flush and a restart, key " + k + ": " + d
				return
			}
		}
	}); p != "" {
		return "panic: " + p
	}
	return d
}

func TestX03(t *testing.T) {
	Run("X03", "bounded", func(c *Check) {
		ops := x03Ops(c)
		depth := Pick(c, 4, 5)
		c.Note("operations", len(ops))
		c.Note("depth", depth)
		run := func(p *pool, seq []int) (string, string) {
			s := x03New(p)
			if p == nil {
				defer func() { closeCache(s.cs) }()
			}
			var names []string
			for i, o := range seq {
				names = append(names, ops[o].name)
				if d := s.do(ops[o]); d != "" {
					return fmt.Sprintf("step %d (%s): %s", i+1, ops[o].name, d), ops[o].name + "|" + d
				}
			}
			if d := s.audit(); d != "" {
				return "at the end: " + d, "end|" + d
			}
			var ks []string
			for k, v := range s.m {
				ks = append(ks, k+show(v))
			}
			sort.Strings(ks)
			c.State(strings.Join(ks, "|"))
			return "", ""
		}
		gen := func(yield func([]int) bool) {
			for n := 1; n <= depth; n++ {
				if !Sequences(len(ops), n, n, func(seq []int) bool {
					return yield(append([]int{}, seq...))
				}) {
					return
				}
			}
		}
		Parallel(c, 8, func(int) *pool { return &pool{} }, gen, func(p *pool, seq []int) {
			if c.Violations() > 30 {
				return
			}
			d, sig := run(p, seq)
			if d != "" {
				d, sig = run(nil, seq)
			}
			c.Trans(len(seq))
			if d != "" {
				var names []string
				for _, o := range seq {
					names = append(names, ops[o].name)
				}
				c.Violate("X03|"+sig, strings.Join(names, "; ")+": "+d, names, func() string { d, _ := run(nil, seq); return d })
				c.Outcome("differs")
				return
			}
			c.Validated(len(seq))
			c.Outcome("agrees")
			c.Exec(fmt.Sprint(seq))
		})
		x03Concurrent(c)
		c.Sample("keys: two with the same cache hash, one in the same part of the cache; values of 0, 8, 700 and 3000 bytes")
	})
}

// ---- concurrent use

type cOp struct {
	name string
	kind byte
	v    string
}

var cOps = []cOp{{"get", 'g', ""}, {"has", 'h', ""}, {"set a", 's', "a"}, {"set b", 's', "b"}, {"delete", 'd', ""}, {"write", 'w', ""}}

type cEvent struct {
	op       cOp
	thread   int
	from, to int
	got      string
}

// linear says whether some order of the events, which respects the order in
// which they did not overlap, explains every answer and the final value.
func linear(evs []cEvent, start, final string) bool {
	used := make([]bool, len(evs))
	var rec func(n int, cur string) bool
	rec = func(n int, cur string) bool {
		if n == len(evs) {
			return cur == final
		}
	next:
		for i, e := range evs {
			if used[i] {
				continue
			}
			for j, o := range evs {
				if !used[j] && j != i && o.to < e.from {
					continue next
				}
			}
			nxt := cur
			switch e.op.kind {
			case 'g':
				if e.got != cur {
					continue
				}
			case 'h':
				if e.got != fmt.Sprint(cur != "") {
					continue
				}
			case 's':
				nxt = e.op.v
			case 'd':
				nxt = ""
			}
			used[i] = true
			if rec(n+1, nxt) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(0, start)
}

func x03Concurrent(c *Check) {
	k := []byte(x03Keys[0])
	p := &pool{}
	bound := Pick(c, 2, 3)
	c.Note("concurrent deviations", bound)
	schedules := 0
	run := func(pre int, scripts [][]cOp, explore func(setup func(*sched.S), after func(*sched.S, []int) bool)) (bad string, at []int) {
		var evs []cEvent
		var cs *indexer.CacheStore
		clock := 0
		start := ""
		explore(func(s *sched.S) {
			evs, clock, start = nil, 0, ""
			db := dbm.NewMemDB()
			if pre > 0 {
				db.Set(k, []byte("old"))
				start = "old"
			}
			cs = p.open(db)
			if pre == 2 { // already read once
				cs.Get(k)
			}
			for t, sc := range scripts {
				t, sc := t, sc
				sched.Go(fmt.Sprintf("t%d", t), func() {
					for _, o := range sc {
						sched.Yield("start")
						e := cEvent{op: o, thread: t, from: clock, to: 1 << 30}
						clock++
						switch o.kind {
						case 'g':
							v, err := cs.Get(k)
							e.got = string(v)
							if err != nil {
								e.got = err.Error()
							}
						case 'h':
							v, err := cs.Has(k)
							e.got = fmt.Sprint(v)
							if err != nil {
								e.got = err.Error()
							}
						case 's':
							if err := cs.Set(k, []byte(o.v)); err != nil {
								e.op.v = err.Error()
							}
						case 'd':
							if err := cs.Delete(k); err != nil {
								e.op.name = err.Error()
								e.op.kind = 'e'
							}
						case 'w':
							cs.Write()
						}
						e.to = clock
						clock++
						evs = append(evs, e)
					}
				})
			}
		}, func(s *sched.S, ch []int) bool {
			schedules++
			c.Trans(s.Steps)
			v, _ := cs.Get(k)
			if len(s.Panics) > 0 {
				bad = "panic: " + s.Panics[0]
			} else if len(s.Stuck) > 0 {
				bad = fmt.Sprintf("stuck: %v", s.Stuck)
			} else if !linear(evs, start, string(v)) {
				bad = fmt.Sprintf("answers %+v and final value %q have no order (start %q)", evs, v, start)
			} else {
				cs.Write()
				cs.Get(k)
				if w, _ := p.b.Store.DB.Get(k); string(w) != string(v) {
					bad = fmt.Sprintf("the flushed value is %q, the answer was %q", w, v)
				}
			}
			if bad != "" {
				at = append([]int{}, ch...)
				return false
			}
			c.State(fmt.Sprint(evs, string(v)))
			c.Validated(1)
			return true
		})
		return
	}
	var scripts [][]cOp
	for _, a := range cOps {
		scripts = append(scripts, []cOp{a})
		for _, b := range cOps {
			scripts = append(scripts, []cOp{a, b})
		}
	}
	name := func(x [][]cOp) string {
		var o []string
		for _, s := range x {
			var n []string
			for _, q := range s {
				n = append(n, q.name)
			}
			o = append(o, strings.Join(n, ","))
		}
		return strings.Join(o, " ‖ ")
	}
	one := func(pre int, sc [][]cOp) {
		if c.Expired() || c.Violations() > 30 {
			return
		}
		bad, at := run(pre, sc, func(setup func(*sched.S), after func(*sched.S, []int) bool) {
			sched.Explore(bound, 5000, setup, after, c.Expired)
		})
		c.Exec(fmt.Sprintf("conc %d %s", pre, name(sc)))
		if bad != "" {
			c.Outcome("concurrent use differs")
			c.Violate("X03|concurrent|"+name(sc), fmt.Sprintf("%s (value there before: %d): %s", name(sc), pre, bad), map[string]any{"scripts": name(sc), "pre": pre, "schedule": at}, func() string {
				b, _ := run(pre, sc, func(setup func(*sched.S), after func(*sched.S, []int) bool) {
					s, ch := sched.Run(at, 5000, false, setup)
					after(s, ch)
				})
				return b
			})
			return
		}
		c.Outcome("concurrent use agrees")
	}
	for pre := 0; pre < 3; pre++ {
		for i, a := range scripts {
			for j, b := range scripts {
				if j < i || (!c.Thorough() && len(a)+len(b) > 3) {
					continue
				}
				one(pre, [][]cOp{a, b})
			}
		}
		for i, a := range cOps {
			for j, b := range cOps {
				for l, d := range cOps {
					if i <= j && j <= l && (pre == 1 || c.Thorough()) {
						one(pre, [][]cOp{{a}, {b}, {d}})
					}
				}
			}
		}
	}
	c.Note("concurrent schedules", schedules)
}
