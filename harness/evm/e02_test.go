package evm

import (
	"testing"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// histories yields every sequence of exactly k steps out of menu.
func histories(c *Check, menu []func() step, k int, yield func([]step) bool) bool {
	return Sequences(len(menu), k, k, func(seq []int) bool {
		st := make([]step, len(seq))
		for i, s := range seq {
			st[i] = menu[s]()
		}
		return yield(st)
	})
}

func prog(f *Frame, ncon int) *Program {
	k := 10
	return &Program{Root: clone(f, &k), NCon: ncon, Probe: true}
}

func tx(f *Frame) func() step { return func() step { return step{Prog: prog(f, 2)} } }
func txv(f *Frame, v uint64) func() step {
	return func() step { return step{Prog: prog(f, 2), Value: v} }
}
func fr(end string, ops ...Op) *Frame { return &Frame{Ops: ops, End: end} }

func runHistories(c *Check, prefix string, menu []func() step, lo, hi int) {
	n := 0
	Parallel(c, 0, func(i int) *lab { return newLab(c, 2) }, func(yield func([]step) bool) {
		for k := lo; k <= hi; k++ {
			if !histories(c, menu, k, func(s []step) bool { n++; return yield(s) }) {
				return
			}
		}
	}, func(l *lab, s []step) { l.run(prefix, s) })
	c.Note("histories_"+prefix, n)
}

func S(slot, val int) Op { return Op{K: "sstore", Slot: slot, Val: val} }
func T(slot, val int) Op { return Op{K: "tstore", Slot: slot, Val: val} }
func L(slot int) Op      { return Op{K: "log", Slot: slot} }
func call(to int, v uint64, f *Frame) Op {
	return Op{K: "call", To: to, Value: v, Sub: f}
}
func kall(k string, to int, f *Frame) Op { return Op{K: k, To: to, Sub: f} }
func cr2(salt int, v uint64, f *Frame) Op {
	return Op{K: "create2", Slot: salt, Value: v, Sub: f}
}
func cr(v uint64, f *Frame) Op { return Op{K: "create", Value: v, Sub: f} }
func child(run int, v uint64) Op {
	return Op{K: "call", To: -1, Val: run, Value: v}
}

func TestE02(t *testing.T) {
	Run("E02", "model_checking", func(c *Check) {
		deployed := func(ops ...Op) *Frame {
			return &Frame{Ops: ops, Run: []*Frame{fr("stop", S(0, 31), L(0)), fr("stop", S(0, 0), L(0)), fr("revert", S(1, 9))}}
		}
		menu := []func() step{
			tx(fr("stop", S(0, 1), L(0))),
			tx(fr("stop", S(0, 0), L(0))),
			tx(fr("stop", L(0), S(0, 2), call(1, 0, fr("stop", L(0), S(0, 3), S(1, 1))), L(0))),
			tx(fr("stop", S(0, 4), call(1, 0, fr("revert", S(0, 5))), S(1, 6))),
			tx(fr("revert", S(0, 7), call(1, 0, fr("stop", S(0, 8))))),
			txv(fr("stop", call(1, 3, fr("stop", S(1, 0), L(1)))), 5),
			tx(fr("stop", kall("delegate", 1, fr("stop", S(0, 12), L(1))))),
			func() step { return step{Kind: "create", Frame: deployed(S(0, 21))} },
			func() step { return step{Kind: "create2", Salt: 7, Frame: deployed(S(0, 22), L(0)), Value: 2} },
			func() step { return step{Kind: "create", Frame: fr("revert", S(0, 23))} },
			func() step { return step{Kind: "created", Run: 0} },
			func() step { return step{Kind: "created", Run: 1, Value: 1} },
			func() step { return step{Kind: "created", Run: 2} },
			func() step { return step{Kind: "send", To: ExtAddr(0), Value: 4} },
		}
		runHistories(c, "", menu, 1, Pick(c, 3, 4))
		if !c.Expired() {
			// longer histories over the storage subset
			runHistories(c, "long/", menu[:5], 4, Pick(c, 5, 6))
		}
		c.Note("alphabet", "executions that write, overwrite and zero shared slots of two contracts through call/delegatecall, with inner and outer reverts, value, top-level creations (plain and salted, repeated, failing), calls into the created contract, plain sends; all histories of bounded length")
		c.Assume("each execution is kept or dropped as a whole, as the message layer does; its effects are read back through the query service and by later executions")
	})
}

func TestE03(t *testing.T) {
	Run("E03", "model_checking", func(c *Check) {
		dep := &Frame{Ops: []Op{T(0, 5)}, Run: []*Frame{fr("stop", Op{K: "sd", To: -2}), fr("stop", L(0), T(0, 6), L(0))}}
		menu := []func() step{
			tx(fr("stop", L(0), T(0, 1), L(0))),
			tx(fr("stop", L(0), T(0, 2), call(1, 0, fr("stop", L(0), T(0, 3), L(0))), L(0))),
			tx(fr("stop", T(0, 4), call(1, 0, fr("revert", T(0, 5), L(0))), L(0), call(1, 0, fr("stop", L(0))))),
			tx(fr("revert", T(0, 6), T(1, 7), L(0))),
			tx(fr("invalid", T(0, 8))),
			tx(fr("stop", L(1), T(1, 9), kall("delegate", 1, fr("stop", L(1), T(0, 10))), L(0))),
			tx(fr("stop", S(0, 1), S(0, 0), L(0))),                                                 // refund counter
			tx(fr("stop", S(0, 0), S(1, 1), S(1, 0), T(0, 0), L(0))),                               // refund counter
			tx(fr("stop", Op{K: "gas"}, Op{K: "ech", To: 1}, Op{K: "gas"}, S(1, 3), Op{K: "gas"})), // warm/cold
			func() step { return step{Kind: "create2", Salt: 1, Frame: dep} },
			func() step { return step{Kind: "created", Run: 0} },
			func() step { return step{Kind: "created", Run: 1} },
			tx(fr("stop", cr2(3, 0, dep), child(0, 0), child(1, 0))),
		}
		runHistories(c, "", menu, 1, Pick(c, 3, 4))
		// pairs of contracts on equal slots inside one execution
		a := treeAlpha{
			leaves: []Op{{K: "tstore", Slot: 0, Val: -1}, {K: "tstore", Slot: 0, Val: 0}, {K: "log", Slot: 0}},
			comps:  []Op{{K: "call", To: 0}, {K: "call", To: 1}, {K: "delegate", To: 1}, {K: "callcode", To: 1}},
			ends:   []string{"stop", "revert"}}
		Parallel(c, 0, func(i int) *lab { return newLab(c, 2) }, func(yield func(*Program) bool) {
			a.programs(1, 3, 2, true, yield)
		}, func(l *lab, p *Program) {
			l.run("tree/", []step{{Prog: p}, {Prog: prog(fr("stop", L(0), call(1, 0, fr("stop", L(0)))), 2)}})
		})
		c.Note("alphabet", "executions that write/read transient slots with equal keys in two contracts, succeed, revert or halt, use the refund counter, cold/warm probes, creations and self-destructs in later executions; all histories in one block, then every transient call tree of up to 3 nodes followed by a reader execution")
		c.Assume("gas is compared exactly with the reference (after subtracting the constant the chain spends outside the EVM), so leaked refunds or warm entries show")
	})
}

func TestE04(t *testing.T) {
	Run("E04", "model_checking", func(c *Check) {
		runs := []*Frame{
			fr("stop", Op{K: "sd", To: -2}),     // 0 destroy to ext0
			fr("stop", Op{K: "sd", To: -1}),     // 1 destroy to itself
			fr("stop", S(0, 77), L(0)),          // 2 write
			fr("revert", Op{K: "log", Slot: 0}), // 3 revert
		}
		tmpl := &Frame{Run: runs}
		a := treeAlpha{
			leaves: []Op{child(0, 0), child(1, 1), child(2, 0), {K: "ech", To: -1}, {K: "sd", To: -2}},
			comps:  []Op{{K: "create2", Slot: 1, Value: 3, Sub: tmpl}, {K: "create", Value: 1, Sub: tmpl}, {K: "call", To: 1}, {K: "call", To: 0}},
			ends:   []string{"stop", "revert"}, tops: []string{"stop"}}
		destroyInside := treeAlpha{
			leaves: []Op{child(0, 0), child(2, 2), S(0, 5)},
			comps:  []Op{{K: "create2", Slot: 1, Value: 3, Sub: tmpl}, {K: "call", To: 1}},
			ends:   []string{"stop", "revert", "invalid"}, tops: []string{"stop"}}
		n := 0
		Parallel(c, 0, func(i int) *lab { return newLab(c, 2) }, func(yield func([]step) bool) {
			follow := func() step { return step{Kind: "created", Run: 2} }
			ok := a.programs(1, 3, 2, true, func(p *Program) bool {
				n++
				return yield([]step{{Prog: p}, follow()})
			}) && destroyInside.programs(4, Pick(c, 4, 5), 2, true, func(p *Program) bool {
				if p.Root.Ops[0].Sub == nil {
					return true
				}
				n++
				return yield([]step{{Prog: p}, follow()})
			})
			if !ok {
				return
			}
			_ = Pick(c, 0, 1) == 1 && a.programs(4, 4, 2, true, func(p *Program) bool {
				if p.Root.Ops[0].Sub == nil {
					return true
				}
				n++
				return yield([]step{{Prog: p}, follow()})
			})
		}, func(l *lab, s []step) { l.run("tree/", s) })
		c.Note("programs", n)
		// histories across executions: create, destroy, recreate, prefund, collide
		dep := func(v int) *Frame {
			return &Frame{Ops: []Op{S(0, v), S(2, v)}, Run: runs}
		}
		sdInit := &Frame{Ops: []Op{S(2, 3), {K: "sd", To: -2}}}
		menu := []func() step{
			func() step { return step{Kind: "create2", Salt: 1, Frame: dep(1), Value: 2} },
			func() step { return step{Kind: "create", Frame: dep(2)} },
			func() step { return step{Kind: "create2", Salt: 1, Frame: sdInit, Value: 2} },
			func() step { return step{Kind: "prefund", Salt: 1, Frame: dep(1), Value: 5} },
			func() step { return step{Kind: "prefund", Salt: 1, Frame: sdInit, Value: 5} },
			func() step { return step{Kind: "created", Run: 0} },
			func() step { return step{Kind: "created", Run: 1, Value: 1} },
			func() step { return step{Kind: "created", Run: 2} },
			tx(fr("stop", cr2(4, 3, dep(5)), child(0, 0), child(2, 1), cr2(4, 1, dep(5)))),
			tx(fr("stop", cr2(4, 3, dep(5)), S(0, 1))),
			tx(fr("stop", Op{K: "sd", To: -3})),
		}
		runHistories(c, "hist/", menu, 1, Pick(c, 3, 4))
		c.Note("alphabet", "call trees over salted/plain creations whose runtime can destroy itself (to a third party, to itself), write, or revert; calls into the child before/after, code-hash probes, self-destruct of the running contract, reverting and halting frames; then all histories of create/destroy/recreate/prefund/collide executions")
		c.Assume("value sent to a destroyed contract in the same execution is burnt, as in the reference")
	})
}
