package index

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	ethfilters "github.com/ethereum/go-ethereum/eth/filters"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/initia-labs/minievm/jsonrpc/namespaces/eth/filters"

	. "github.com/initia-labs/minievm/verifmc/core"
	"github.com/initia-labs/minievm/verifmc/sched"
)

// j01Chains are the histories that are queried.
func j01Chains(c *Check) [][][]string {
	out := [][][]string{
		{{"p"}, {"q", "p"}, {}, {"nest", "revert"}, {"send", "list", "value"}, {"create", "junk", "poor"}, {"legacy", "gas", "nest"}},
		{{}, {"nest", "q"}, {"revert"}, {}, {"q", "q", "p"}},
		{{"plain", "store"}, {}, {"badcreate", "sdkcall"}},
	}
	if c.Thorough() {
		for _, x := range []string{"p", "q", "nest", "list", "create", "value", ""} {
			for _, y := range []string{"p", "q", "nest", "revert", ""} {
				var one, two []string
				for _, o := range []string{x, "send", y} {
					if o != "" {
						one = append(one, o)
					}
				}
				for _, o := range []string{y, x} {
					if o != "" {
						two = append(two, o)
					}
				}
				out = append(out, [][]string{one, two})
			}
		}
	}
	return out
}

type j01Filter struct {
	from, to *big.Int
	hash     *common.Hash
	addrs    []common.Address
	topics   [][]common.Hash
}

func (f j01Filter) String() string {
	s := fmt.Sprintf("%v..%v", f.from, f.to)
	if f.hash != nil {
		s = f.hash.Hex()
	}
	return fmt.Sprintf("%s addresses %v topics %v", s, f.addrs, f.topics)
}

func (f j01Filter) crit() ethfilters.FilterCriteria {
	return ethfilters.FilterCriteria{BlockHash: f.hash, FromBlock: f.from, ToBlock: f.to, Addresses: f.addrs, Topics: f.topics}
}

// j01Chain is a lab with its logs laid out.
type j01Chain struct {
	*lab
	api  *filters.FilterAPI
	head int64
	all  map[int64][]*coretypes.Log
}

func j01Lab(ops [][]string) *j01Chain {
	l := newLabOf(nil, true)
	for _, o := range ops {
		if bad := l.run(o...); bad != "" {
			panic(HarnessFault("J01 history: " + bad))
		}
	}
	k := &j01Chain{lab: l, api: l.filters(l.backend()), head: l.w.App.LastBlockHeight(), all: map[int64][]*coretypes.Log{}}
	for h, b := range l.blocks {
		for i := range b.list {
			k.all[h] = append(k.all[h], l.wantLogs(&b.list[i])...)
		}
	}
	return k
}

func (k *j01Chain) matches(f j01Filter, g *coretypes.Log) bool {
	if len(f.addrs) > 0 {
		ok := false
		for _, a := range f.addrs {
			ok = ok || a == g.Address
		}
		if !ok {
			return false
		}
	}
	for i, alt := range f.topics {
		ok := len(alt) == 0
		if i >= len(g.Topics) {
			return false
		}
		for _, t := range alt {
			ok = ok || t == g.Topics[i]
		}
		if !ok {
			return false
		}
	}
	return true
}

// want gives the matching logs; free when the answer may as well be an error.
func (k *j01Chain) want(f j01Filter) (out []*coretypes.Log, free bool) {
	lo, hi := int64(0), int64(-1)
	if f.hash != nil {
		free = true
		for h, b := range k.blocks {
			if b.hash == *f.hash {
				lo, hi, free = h, h, false
			}
		}
	} else {
		num := func(n *big.Int) int64 {
			switch {
			case n == nil, n.Sign() < 0:
				return k.head
			case n.Sign() == 0:
				return 1
			}
			return n.Int64()
		}
		lo, hi = num(f.from), num(f.to)
		free = lo > hi || hi > k.head
	}
	free = free || len(f.topics) > 4
	for h := lo; h <= min(hi, k.head); h++ {
		for _, g := range k.all[h] {
			if k.matches(f, g) {
				out = append(out, g)
			}
		}
	}
	return
}

func eqLogs(a, b []*coretypes.Log) bool {
	if len(a) != len(b) {
		return false
	}
	for i, x := range a {
		y := b[i]
		if x.Address != y.Address || x.BlockNumber != y.BlockNumber || x.BlockHash != y.BlockHash || x.TxHash != y.TxHash || x.TxIndex != y.TxIndex || x.Index != y.Index || x.Removed != y.Removed || string(x.Data) != string(y.Data) || len(x.Topics) != len(y.Topics) {
			return false
		}
		for j := range x.Topics {
			if x.Topics[j] != y.Topics[j] {
				return false
			}
		}
	}
	return true
}

func (k *j01Chain) judge(f j01Filter, got []*coretypes.Log, err error) string {
	want, free := k.want(f)
	if err != nil {
		if free {
			return ""
		}
		return "fails: " + err.Error()
	}
	if f.hash != nil && free && len(f.topics) <= 4 {
		return fmt.Sprintf("an unknown block has %d logs and no error", len(got))
	}
	if got == nil {
		return "the answer is null, not a list"
	}
	if !eqLogs(got, want) {
		if s := sameLogs(got, want); s != "" {
			return s
		}
		return "the logs differ in their data"
	}
	return ""
}

// ask runs the query by both routes.
func (k *j01Chain) ask(f j01Filter, filter bool) string {
	var got []*coretypes.Log
	var err error
	if p := Try(func() { got, err = k.api.GetLogs(context.Background(), f.crit()) }); p != "" {
		return "GetLogs panics: " + p
	}
	if s := k.judge(f, got, err); s != "" {
		return "GetLogs: " + s
	}
	if !filter {
		return ""
	}
	var id rpc.ID
	if p := Try(func() { id, err = k.api.NewFilter(f.crit()) }); p != "" {
		return "NewFilter panics: " + p
	}
	if err != nil {
		return ""
	}
	if p := Try(func() { got, err = k.api.GetFilterLogs(context.Background(), id) }); p != "" {
		return "GetFilterLogs panics: " + p
	}
	k.api.UninstallFilter(id)
	if s := k.judge(f, got, err); s != "" {
		return "GetFilterLogs: " + s
	}
	return ""
}

var j01None = common.HexToHash("0x99")

func (k *j01Chain) addrSets() (out [][]common.Address) {
	pool := []common.Address{k.p, k.q, k.nest, k.token(), eve}
	out = append(out, nil, []common.Address{})
	for i, a := range pool {
		out = append(out, []common.Address{a})
		for _, b := range pool[i+1:] {
			out = append(out, []common.Address{a, b})
		}
	}
	return append(out, []common.Address{eve, k.nest, k.p})
}

func j01Patterns(n int) (out [][][]common.Hash) {
	alt := [][]common.Hash{{}, {t1}, {t2}, {t3}, {t1, t2}, {j01None}}
	if n == 0 {
		return [][][]common.Hash{{}}
	}
	for _, p := range j01Patterns(n - 1) {
		for _, a := range alt {
			out = append(out, append(append([][]common.Hash{}, p...), a))
		}
	}
	return
}

func (k *j01Chain) spans() (out []j01Filter) {
	var nums []*big.Int
	nums = append(nums, nil)
	for n := int64(-4); n <= k.head+2; n++ {
		nums = append(nums, big.NewInt(n))
	}
	for _, a := range nums {
		for _, b := range nums {
			if a != nil && b != nil && (a.Sign() < 0 && a.Int64() != -2 && b.Int64() != -2 || b.Sign() < 0 && b.Int64() != -2 && a.Int64() != -2) {
				continue
			}
			out = append(out, j01Filter{from: a, to: b})
		}
	}
	for _, b := range k.blocks {
		h := b.hash
		out = append(out, j01Filter{hash: &h})
	}
	for _, h := range []common.Hash{{}, j01None, {0xff}} {
		h := h
		out = append(out, j01Filter{hash: &h})
	}
	return
}

func TestJ01(t *testing.T) {
	Run("J01", "bounded", func(c *Check) {
		var long [][][]common.Hash
		for n := 0; n <= 3; n++ {
			long = append(long, j01Patterns(n)...)
		}
		long = append(long, [][]common.Hash{{}, {}, {}, {}}, [][]common.Hash{{t1}, nil, {t3}, {t1, t2}}, [][]common.Hash{{t1}, nil, {t3}, {t2}}, [][]common.Hash{{}, {}, {}, {}, {}}, nil)
		short := append(j01Patterns(1), j01Patterns(2)...)
		short = append(short, nil)
		tiny := append(j01Patterns(1), nil)
		for ci, ops := range j01Chains(c) {
			if c.Expired() {
				break
			}
			ops := ops
			name := fmt.Sprint(ops)
			k := j01Lab(ops)
			type item struct {
				f    j01Filter
				pats [][][]common.Hash
			}
			Parallel(c, 0, func(int) *filters.FilterAPI { return nil }, func(yield func(item) bool) {
				for _, s := range k.spans() {
					for ai, a := range k.addrSets() {
						s.addrs = a
						pats := short
						switch {
						case c.Thorough() && ci < 3, ci == 0 && ai == 2:
							pats = long
						case c.Thorough(), len(a) < 2:
						case ci == 0:
							pats = tiny
						default:
							continue
						}
						if !yield(item{s, pats}) {
							return
						}
					}
				}
			}, func(_ *filters.FilterAPI, it item) {
				for pi, p := range it.pats {
					f := it.f
					f.topics = p
					c.Exec(name + f.String())
					bad := k.ask(f, pi%8 == 0)
					if bad == "" {
						w, free := k.want(f)
						c.State(fmt.Sprintf("%d|%v|%d|%t", ci, f.hash != nil, len(w), free))
						c.Trans(1)
						c.Validated(1)
						continue
					}
					c.Outcome("differs")
					c.Violate(fmt.Sprintf("J01|%d|%s", ci, f), fmt.Sprintf("blocks %s, query %s: %s", name, f, bad), map[string]any{"blocks": ops, "query": f.String()}, func() string { return k.ask(f, true) })
				}
			})
			c.Outcome("agrees")
			if ci > 1 {
				continue
			}
			// the collector and the scanner run side by side: all their schedules
			for _, f := range []j01Filter{
				{from: big.NewInt(1), to: big.NewInt(-2)},
				{from: big.NewInt(2), to: big.NewInt(4), addrs: []common.Address{k.p}},
				{from: big.NewInt(0), to: big.NewInt(-2), topics: [][]common.Hash{{t1}}},
				{from: big.NewInt(-2), to: big.NewInt(-2)},
				{from: big.NewInt(1), to: big.NewInt(100), topics: [][]common.Hash{{j01None}}},
			} {
				f := f
				var bad string
				var at []int
				run := func(trace func(*sched.S)) func(s *sched.S) {
					return func(s *sched.S) {
						bad = "it never answers"
						sched.Go("query", func() {
							got, err := k.api.GetLogs(context.Background(), f.crit())
							bad = k.judge(f, got, err)
						})
					}
				}
				st := sched.Explore(Pick(c, 2, 3), 20000, run(nil), func(s *sched.S, ch []int) bool {
					if bad == "" && len(s.Panics) > 0 {
						bad = s.Panics[0]
					}
					if bad != "" {
						at = ch
						return false
					}
					return true
				}, c.Expired)
				c.Trans(st.Steps)
				for i := 0; i < st.Schedules; i++ {
					c.Exec(fmt.Sprintf("%s schedule %d", f, i))
				}
				if at != nil {
					c.Violate(fmt.Sprintf("J01|schedule|%s", f), fmt.Sprintf("blocks %s, query %s, in schedule %v: %s", name, f, at, bad), map[string]any{"blocks": ops, "query": f.String(), "schedule": at}, func() string {
						sched.Run(at, 20000, false, run(nil))
						return bad
					})
				} else if !st.Complete {
					c.Truncate("schedules")
				}
			}
			// a client that goes away ends the scan
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			if got, err := k.api.GetLogs(ctx, j01Filter{from: big.NewInt(1), to: big.NewInt(-2)}.crit()); err == nil {
				w, _ := k.want(j01Filter{from: big.NewInt(1), to: big.NewInt(-2)})
				if !eqLogs(got, w) {
					c.Violate("J01|cancelled", "a query whose client went away gives "+fmt.Sprint(len(got))+" of "+fmt.Sprint(len(w))+" logs as if they were all", nil, nil)
				}
			} else if !errors.Is(err, context.Canceled) {
				c.Note("cancelled", err.Error())
			}
		}
		c.Sample("blocks [p | q,p | | nest,revert | …], query 2..latest addresses [p] topics [[t1]]")
	})
}
