package bank

import (
	"fmt"
	"math/big"
	"testing"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"

	. "github.com/initia-labs/minievm/verifmc/core"
)

func TestB04(t *testing.T) {
	Run("B04", "model_checking", func(c *Check) {
		// preparations: what was granted, moved and handed over before the call
		prep := func(l *lab, m *model) [][]op {
			fac, cus, stake := m.toks[2], m.toks[3], m.toks[0]
			out := [][]op{
				{},
				{l.opTok(fac, u1, "approve", u2, n(9)), l.opTok(fac, u1, "approve", con, maxU), l.opTok(cus, u1, "approve", u2, n(5)), l.opTok(stake, u1, "approve", u2, n(100))},
				{l.opTok(fac, u1, "approve", u2, n(9)), l.opTok(fac, u1, "approve", u2, n(0))},
				{l.opTok(fac, u1, "transferOwnership", u2), l.opTok(cus, u1, "transferOwnership", longA)},
				{l.opModule("acc2mod", u1, modT, coins(m, "fac", 20, "stake", 30, "cus", 4)), l.opModule("acc2mod", u1, modF, coins(m, "fac", 6, "stake", 3, "cus", 2))},
				{l.opModule("acc2mod", u1, modT, coins(m, "fac", 20, "stake", 30, "cus", 4)), l.opTok(fac, modT, "approve", u2, n(9)), l.opTok(stake, modT, "approve", u2, n(9))},
				{l.opTok(fac, u1, "approve", u1, n(9)), l.opTok(fac, u1, "approve", u2, n(9)), l.opTok(fac, u2, "transferFrom", u1, con, n(4))},
				{l.opSend(u1, longA, coins(m, "fac", 7, "stake", 5)), l.opTok(fac, longA, "approve", u2, n(9)), l.opTok(fac, u1, "mint", con, n(5))},
			}
			return out
		}
		type item struct {
			p  int
			op int
		}
		grid := func(l *lab, m *model) []op {
			var o []op
			callers := []common.Address{u1, u2, con, longA, modT, modF, chain}
			targets := []common.Address{u1, u2, con, longA, modT, modF}
			if !c.Thorough() {
				callers = []common.Address{u1, u2, longA, modT, chain}
				targets = []common.Address{u1, u2, longA, modT, modF}
			}
			for _, t := range m.toks {
				for _, cl := range callers {
					for _, a := range targets {
						for _, x := range amounts(t.b(cl)) {
							o = append(o, l.opTok(t, cl, "transfer", a, x))
						}
						for _, x := range amounts(t.b(a)) {
							o = append(o, l.opTok(t, cl, "sudoBurn", a, x))
						}
						for _, x := range []*big.Int{n(0), n(1), maxU, new(big.Int).Sub(maxU, t.supply)} {
							o = append(o, l.opTok(t, cl, "mint", a, x), l.opTok(t, cl, "sudoMint", a, x))
						}
						o = append(o, l.opTok(t, cl, "transferOwnership", a))
						o = append(o, l.opTok(t, cl, "approve", a, n(3)))
						lim := t.b(a)
						if al := t.al(a, cl); al.Cmp(lim) < 0 {
							lim = al
						}
						for _, x := range amounts(lim) {
							o = append(o, l.opTok(t, cl, "burnFrom", a, x))
							for _, to := range Pick(c, []common.Address{u2, modF}, targets) {
								o = append(o, l.opTok(t, cl, "transferFrom", a, to, x))
							}
						}
						for _, x := range amounts(t.b(a)) {
							for _, to := range []common.Address{u2, modF} {
								o = append(o, l.opTok(t, cl, "sudoTransfer", a, to, x))
							}
						}
					}
					o = append(o, l.opTok(t, cl, "transferOwnership", common.Address{}))
					for _, x := range amounts(t.b(cl)) {
						o = append(o, l.opTok(t, cl, "burn", x))
					}
				}
			}
			return o
		}
		type state struct {
			ctx sdk.Context
			m   *model
			ops []op
		}
		type wk struct {
			s     sys
			preps map[int]*state
		}
		mk := func(int) *wk {
			l := newLab(c)
			return &wk{sys{l, nil, func(l *lab, ctx sdk.Context, m *model) string { return l.contracts(ctx, m) }}, map[int]*state{}}
		}
		at := func(w *wk, p int) (*state, string) {
			if st, ok := w.preps[p]; ok {
				return st, ""
			}
			ctx, m := w.s.Base()
			for _, o := range prep(w.s.lab, w.s.m)[p] {
				var d string
				ctx, m, d = StepOp[*model](w.s, ctx, m, o)
				if d != "" {
					return nil, "preparing: " + o.Name + ": " + d
				}
			}
			st := &state{ctx, m, grid(w.s.lab, m)}
			w.preps[p] = st
			return st, ""
		}
		g := mk(0)
		np := len(prep(g.s.lab, g.s.m))
		Parallel(c, 0, mk, func(yield func(item) bool) {
			for p := 0; p < np; p++ {
				st, d := at(g, p)
				if d != "" {
					c.Violate("authority", fmt.Sprintf("preparation %d: %s", p, d), p, nil)
					continue
				}
				for i := range st.ops {
					if !yield(item{p, i}) {
						return
					}
				}
			}
		}, func(w *wk, it item) {
			st, d := at(w, it.p)
			name := fmt.Sprintf("prep %d", it.p)
			if d == "" {
				name += ": " + st.ops[it.op].Name
				_, _, d = StepOp[*model](w.s, st.ctx, st.m, st.ops[it.op])
			}
			c.Exec(name)
			c.Trans(1)
			c.State(name)
			if d != "" {
				c.Violate("authority", name+" => "+d, name, func() string {
					x := mk(0)
					s, d := at(x, it.p)
					if d != "" {
						return d
					}
					_, _, d = StepOp[*model](x.s, s.ctx, s.m, s.ops[it.op])
					return d
				})
				return
			}
			c.Validated(1)
		})
		// sequences of the calls that move authority around
		WalkOps[*model](c, "authority-sequence", Pick(c, 3, 4), func(int) OpSys[*model] {
			return sys{newLab(c), func(l *lab, _ *model) []op {
				m := l.m
				f := m.toks[2]
				var o []op
				for _, p := range []common.Address{u1, u2, longA} {
					o = append(o, l.opTok(f, p, "mint", u2, n(1)), l.opTok(f, p, "transferFrom", u1, p, n(5)))
					if p != u1 {
						o = append(o, l.opTok(f, u1, "approve", p, n(5)), l.opTok(f, p, "burnFrom", u1, n(5)))
					}
					for _, q := range []common.Address{u1, u2, longA} {
						if p != q {
							o = append(o, l.opTok(f, p, "transferOwnership", q))
						}
					}
				}
				o = append(o, l.opTok(f, u1, "burn", n(76)), l.opTok(f, u1, "approve", u2, n(0)))
				return o
			}, func(l *lab, ctx sdk.Context, m *model) string { return l.contracts(ctx, m) }}
		})
	})
}

// amounts below, at and above a limit.
func amounts(b *big.Int) []*big.Int {
	o := []*big.Int{n(0)}
	if b.Sign() > 0 {
		o = append(o, b)
	}
	if b.Cmp(maxU) < 0 {
		o = append(o, new(big.Int).Add(b, n(1)))
	}
	return o
}
