package evm

import (
	"testing"

	. "github.com/initia-labs/minievm/verifmc/core"
)

func TestE01(t *testing.T) {
	Run("E01", "model_checking", func(c *Check) {
		type suite struct {
			name string
			a    treeAlpha
			lo   int
			hi   int
		}
		suites := []suite{
			{"storage", treeAlpha{
				leaves: []Op{{K: "sstore", Slot: 0, Val: -1}, {K: "log", Slot: 0}},
				comps:  []Op{{K: "call", To: 0}, {K: "call", To: 1}, {K: "delegate", To: 1}},
				ends:   []string{"stop", "revert"}, tops: []string{"stop"}}, 1, Pick(c, 4, 5)},
			{"transient", treeAlpha{
				leaves: []Op{{K: "tstore", Slot: 0, Val: -1}, {K: "log", Slot: 0}},
				comps:  []Op{{K: "call", To: 0}, {K: "call", To: 1}, {K: "delegate", To: 1}},
				ends:   []string{"stop", "revert"}, tops: []string{"stop"}}, 1, Pick(c, 3, 4)},
			{"value", treeAlpha{
				leaves: []Op{{K: "bal", To: 1}, {K: "sstore", Slot: 0, Val: -1}},
				comps:  []Op{{K: "call", To: 1, Value: 7}, {K: "call", To: 0, Value: 3}, {K: "call", To: 1, Value: 1 << 40}, {K: "static", To: 1}},
				ends:   []string{"stop", "revert"}, tops: []string{"stop"}}, 1, Pick(c, 3, 4)},
			{"create", treeAlpha{
				leaves: []Op{{K: "sstore", Slot: 1, Val: -1}, {K: "log", Slot: 1}},
				comps:  []Op{{K: "create", Value: 2}, {K: "create2", Slot: 5}, {K: "call", To: 1}},
				ends:   []string{"stop", "revert", "invalid"}, tops: []string{"stop"}}, 1, 3},
			{"destroy", treeAlpha{
				leaves: []Op{child(0, 0), child(1, 0), {K: "sd", To: -2}},
				comps:  []Op{{K: "call", To: 1}, {K: "delegate", To: 1}, {K: "create2", Slot: 5, Value: 2, Sub: &Frame{Run: []*Frame{fr("stop", Op{K: "sd", To: -2}), fr("revert", S(0, 4))}}}},
				ends:   []string{"stop", "revert"}, tops: []string{"stop"}}, 1, Pick(c, 3, 4)},
			{"returndata", treeAlpha{
				leaves: []Op{{K: "rds"}, {K: "bal", To: 1}, {K: "sstore", Slot: 0, Val: -1}},
				comps:  []Op{{K: "call", To: 1}, {K: "call", To: 1, Value: 1}, {K: "delegate", To: 1}},
				ends:   []string{"return", "revert", "stop"}, tops: []string{"stop"}}, 1, 3},
			{"halts", treeAlpha{
				leaves: []Op{{K: "sstore", Slot: 0, Val: -1}, {K: "sstore", Slot: 0, Val: 0}},
				comps:  []Op{{K: "call", To: 1}, {K: "callcode", To: 1}, {K: "static", To: 1}},
				ends:   []string{"stop", "revert", "invalid"}, tops: []string{"stop", "revert", "invalid"}}, 1, 3},
		}
		counts := map[string]int{}
		Parallel(c, 0, func(i int) *lab { return newLab(c, 2) }, func(yield func(func(l *lab)) bool) {
			for _, s := range suites {
				s := s
				if !s.a.programs(s.lo, s.hi, 2, true, func(p *Program) bool {
					if !hasComp(p.Root.Ops) && len(p.Root.Ops) > 2 {
						return true // no nesting: covered by shorter programs
					}
					counts[s.name]++
					return yield(func(l *lab) { l.run(s.name+"/", []step{{Prog: p}}) })
				}) {
					return
				}
			}
			// many frames in one execution: side by side, and nested, with one frame failing
			for _, n := range []int{2, 9, 33, 64, 65, 66, 100, Pick(c, 129, 220)} {
				for _, bad := range []int{-1, 0, 1, n / 2, n - 1} {
					for _, nested := range []bool{false, true} {
						if nested && n > Pick(c, 66, 100) {
							continue
						}
						p := many(n, bad, nested)
						counts["many"]++
						if !yield(func(l *lab) { l.run("many/", []step{{Prog: p}, {Prog: prog(fr("stop", L(0), L(1), call(1, 0, fr("stop", L(0)))), 2)}}) }) {
							return
						}
					}
				}
			}
		}, func(l *lab, f func(l *lab)) { f(l) })
		c.Note("suites", counts)
		c.Note("alphabet", "call trees over {storage write, transient write, log of storage+transient, balance read, call/delegatecall/staticcall/callcode with and without value, create, create2}, every frame ending stop/revert/invalid")
		c.Assume("reference = go-ethereum's own state database running the identical bytecode under the chain's rule set; value transfers between frames use the fee token, whose own transfer logs are dropped before comparison")
	})
}

// many is an execution of n further frames, side by side or nested, of which one (or none) reverts.
func many(n, bad int, nested bool) *Program {
	one := func(i int, inner ...Op) *Frame {
		ops := append([]Op{S(i%2, i+1)}, inner...)
		f := fr("stop", append(ops, S(1, i+300))...)
		if i == bad {
			f.End = "revert"
		}
		return f
	}
	if nested {
		var f *Frame
		for i := n - 1; i >= 0; i-- {
			if f == nil {
				f = one(i)
				continue
			}
			f = one(i, Op{K: "call", To: i % 2, Gas: 11_000_000, Sub: f})
		}
		return prog(fr("stop", S(0, 500), Op{K: "call", To: 1, Gas: 11_000_000, Sub: f}, L(0), L(1)), 2)
	}
	ops := []Op{S(0, 500), S(1, 501)}
	for i := 0; i < n; i++ {
		ops = append(ops, Op{K: "call", To: i % 2, Gas: 200_000, Sub: one(i)})
	}
	return prog(fr("stop", append(ops, L(0), L(1))...), 2)
}
