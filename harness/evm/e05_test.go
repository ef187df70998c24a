package evm

import (
	"testing"

	. "github.com/initia-labs/minievm/verifmc/core"
)

func TestE05(t *testing.T) {
	Run("E05", "model_checking", func(c *Check) {
		reg := treeAlpha{
			leaves: []Op{opReg(), opStore("H"), opIsStore("H")},
			comps:  []Op{{K: "call", To: 0}, {K: "call", To: 1}, {K: "delegate", To: 1}},
			ends:   []string{"stop", "revert"}, tops: []string{"stop", "revert"}}
		msg := treeAlpha{
			leaves: []Op{opSend("A", "X", 60), opSend("B", "Y", 7), S(0, -1)},
			comps:  []Op{{K: "call", To: 0}, {K: "call", To: 1}, {K: "delegate", To: 1}},
			ends:   []string{"stop", "revert"}, tops: []string{"stop"}}
		mix := treeAlpha{
			leaves: []Op{opReg(), opStore("X"), opSend("A", "X", 60), opSend("A", "Y", 1000)},
			comps:  []Op{{K: "call", To: 0}, {K: "call", To: 1}},
			ends:   []string{"stop", "revert", "invalid"}, tops: []string{"stop", "invalid"}}
		n := 0
		Parallel(c, 0, func(i int) *lab { return newLab(c, 2) }, func(yield func([]*Program) bool) {
			one := func(p *Program) bool { n++; return yield([]*Program{p}) }
			_ = reg.programs(1, Pick(c, 3, 4), 2, false, one) && msg.programs(1, Pick(c, 3, 4), 2, false, one) && mix.programs(1, 3, 2, false, one)
			// histories: every pair of short programs, the second one observing the first
			var short []func() *Program
			collect := func(a treeAlpha, hi int) {
				a.programs(1, hi, 2, false, func(p *Program) bool {
					short = append(short, func() *Program { k := 10; return &Program{Root: clone(p.Root, &k), NCon: 2} })
					return true
				})
			}
			collect(treeAlpha{leaves: []Op{opReg(), opStore("H"), opIsStore("H"), opSend("A", "B", 60)}, comps: []Op{{K: "call", To: 1}}, ends: []string{"stop", "revert"}, tops: []string{"stop", "revert"}}, 2)
			for _, a := range short {
				for _, b := range short {
					n++
					if !yield([]*Program{a(), b()}) {
						return
					}
				}
			}
		}, func(l *lab, p []*Program) { l.sysRun("", p) })
		c.Note("programs", n)
		c.Note("alphabet", "call trees over registering a token, registering a holder that has no account yet, asking for it, queueing sends (payable, not payable, dependent on order), storage writes; nested calls, self-calls and delegate calls ending stop/revert/invalid; and all pairs of short programs as successive executions")
		c.Assume("oracle: a model written from the property (registry, holders, accounts, queue, balances per frame; queue dispatched in order at the end)")
	})
}

func TestE06(t *testing.T) {
	Run("E06", "model_checking", func(c *Check) {
		bad := func(note, msg string) Op {
			return raw("rawcall", cosmosAddr, "badmsg "+note, pack(true, "execute_cosmos", msg))
		}
		coin := `[{"denom":"` + FeeDenom + `","amount":"1"}]`
		a, b := Acc(party("A")).String(), Acc(party("B")).String()
		in := func(x string) string { return `{"address":"` + x + `","coins":` + coin + `}` }
		multi := func(ins string) string {
			return `{"@type":"/cosmos.bank.v1beta1.MsgMultiSend","inputs":[` + ins + `],"outputs":[` + in(a) + `]}`
		}
		signers := treeAlpha{
			leaves: []Op{opSend("A", "X", 30), opSend("B", "Y", 7), opSend("O", "X", 5), opSend("X", "Y", 1),
				bad("two-signers", multi(in(a)+","+in(b))), bad("no-signer", multi("")), bad("empty", ""), bad("unknown-type", `{"@type":"/no.such.Msg"}`)},
			comps: []Op{{K: "call", To: 0}, {K: "call", To: 1}, {K: "delegate", To: 1}},
			ends:  []string{"stop", "revert"}, tops: []string{"stop"}}
		rawKinds := func(k string, o Op) Op { o.K = k; return o }
		order := treeAlpha{
			leaves: []Op{opSend("A", "B", 100), opSend("B", "X", 120), opSend("B", "A", 50), opSend("A", "Y", 130), opDoomed("A")},
			comps:  []Op{{K: "call", To: 0}, {K: "call", To: 1}},
			ends:   []string{"stop"}, tops: []string{"stop"}}
		nested := treeAlpha{
			leaves: []Op{opSend("A", "X", 60), opSend("B", "Y", 30), S(0, -1)},
			comps:  []Op{opMsgCall("A", 1, nil), opMsgCall("A", 0, nil), opMsgCall("B", 0, nil), {K: "call", To: 1}},
			ends:   []string{"stop", "revert"}, tops: []string{"stop"}}
		kinds := treeAlpha{
			leaves: []Op{rawKinds("rawdelegate", opSend("A", "X", 30)), rawKinds("rawdelegate", opReg()), rawKinds("rawstatic", opSend("A", "X", 30)),
				rawKinds("rawstatic", opReg()), rawKinds("rawstatic", opIsStore("X")), opSend("A", "X", 30)},
			comps: []Op{{K: "call", To: 1}, {K: "delegate", To: 1}},
			ends:  []string{"stop"}, tops: []string{"stop"}}
		n := 0
		Parallel(c, 0, func(i int) *lab { return newLab(c, 2) }, func(yield func([]*Program) bool) {
			one := func(p *Program) bool { n++; return yield([]*Program{p}) }
			_ = signers.programs(1, Pick(c, 2, 3), 2, false, one) && order.programs(1, Pick(c, 3, 4), 2, false, one) &&
				nested.programs(1, Pick(c, 3, 4), 2, false, one) && kinds.programs(1, 3, 2, false, one)
			// long queues: every length, alternating senders whose balances depend on the order
			for k := 2; k <= Pick(c, 24, 48); k++ {
				f, g := &Frame{}, &Frame{}
				for i := 0; i < k; i++ {
					to := "X"
					if i == k-1 {
						to = "Y"
					}
					f.Ops = append(f.Ops, opSend("A", to, i+1))
					if i%2 == 0 {
						g.Ops = append(g.Ops, opSend("A", to, 1))
					} else {
						g.Ops = append(g.Ops, Op{K: "call", To: 1, Sub: fr("stop", opSend("B", to, 1))})
					}
				}
				if !one(prog(f, 2)) || !one(prog(g, 2)) {
					return
				}
			}
		}, func(l *lab, p []*Program) { l.sysRun("", p) })
		c.Note("programs", n)

		// gas: a message's gas comes out of the caller's transaction
		l := newLab(c, 2)
		g := 0
		for _, ops := range [][]Op{
			{opSend("A", "X", 30)}, {opSend("A", "X", 30), opSend("A", "Y", 20)}, {opMsgCall("A", 1, fr("stop", S(0, 5)))}, {opMsgCall("A", 1, fr("stop", S(0, 5), opSend("B", "X", 1)))},
		} {
			p := &Program{Root: &Frame{Ops: ops}, NCon: 2}
			full, d := l.gasOf(p, 25_000_000)
			if d != "" {
				c.Violate("gas-full", p.Root.String()+": "+d, p.Root.String(), nil)
				continue
			}
			empty, _ := l.gasOf(&Program{Root: &Frame{}, NCon: 2}, 25_000_000)
			if full <= empty {
				c.Violate("message-gas-not-charged", p.Root.String(), p.Root.String(), nil)
			}
			for num := uint64(1); num <= 16; num++ {
				lim := full * num / 17
				if lim < empty/2 {
					continue
				}
				g++
				c.Exec(p.Root.String() + " limited")
				if used, d := l.gasOf(p, lim); d == "" {
					c.Violate("gas-limit-ignored", p.Root.String(), map[string]uint64{"limit": lim, "used": used, "full": full}, nil)
				}
			}
		}
		c.Note("gas_limited_runs", g)
		c.Note("alphabet", "queued sends and calls signed by the running contract, another contract, the origin, a third party, two signers, nobody, or no message at all; reached by call, self-call, delegate call, delegate/static call of the system contract itself, and from queued calls (recursively); order-dependent queues; gas limits below the full need")
		c.Assume("oracle: a model written from the property; execution order is read from the bank's transfer events and from order-dependent balances")
	})
}

// gasOf runs p with a gas limit; non-empty string when it failed. A failure must change nothing.
func (l *lab) gasOf(p *Program, limit uint64) (uint64, string) {
	ctx := Branch(l.base)
	if p.Code == nil {
		p.Compile()
	}
	for j := range p.Addrs {
		l.w.SetCode(ctx, p.Addrs[j], p.Code[j])
	}
	to := ConAddr(0)
	r := l.w.Exec(ctx, Caller, &to, []byte{0}, 0, limit, nil)
	if r.Gas > limit {
		l.c.Violate("gas-above-limit", p.Root.String(), map[string]uint64{"limit": limit, "used": r.Gas}, nil)
	}
	if !r.OK {
		return r.Gas, r.Err
	}
	return r.Gas, ""
}
