package bank

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

func TestB07(t *testing.T) {
	Run("B07", "model_checking", func(c *Check) {
		type coin struct {
			tok int
			n   int64
		}
		// balances of the burner: 10 stake, 6 ufoo, 8 fac, 4 cus, 3 unr
		bals := []int64{10, 6, 8, 4, 3}
		var kinds []coin
		for t := range bals {
			kinds = append(kinds, coin{t, 1}, coin{t, bals[t]}, coin{t, bals[t] + 1})
		}
		type blab struct {
			*lab
			base sdk.Context
		}
		mk := func(int) *blab {
			l := newLab(c)
			for t, b := range bals {
				tk := l.m.toks[t]
				from := u1
				if t == 4 {
					from = u2
				}
				Must(l.tok(l.base, chain, tk.addr, "sudoTransfer", from, modT, n(b)))
				if !tk.move(from, modT, n(b)) {
					panic(HarnessFault("funds"))
				}
			}
			return &blab{l, l.base}
		}
		list := func(l *blab, seq []int) sdk.Coins {
			var cs sdk.Coins
			for _, k := range seq {
				cs = append(cs, sdk.Coin{Denom: l.m.toks[kinds[k].tok].denom, Amount: math.NewInt(kinds[k].n)})
			}
			return cs
		}
		judge := func(l *blab, lists [][]int) string {
			ctx := Branch(l.base)
			m := l.m.clone()
			for i, seq := range lists {
				cs := list(l, seq)
				o := l.opModule("burn", modT, modT, cs)
				var d string
				want, ok := o.Model(m)
				cc, commit := ctx.CacheContext()
				cc = Fresh(cc, 1<<40)
				var err error
				if p := Try(func() { err = l.w.App.BankKeeper.BurnCoins(cc, transfertypes.ModuleName, cs) }); p != "" {
					err = fmt.Errorf("%s", p)
				}
				if (err == nil) != ok {
					return fmt.Sprintf("step %d: succeeds=%v (%v), expected %v", i, err == nil, err, ok)
				}
				if ok {
					commit()
					m = want
				}
				if d = l.contracts(ctx, m); d != "" {
					return fmt.Sprintf("step %d: %s", i, d)
				}
			}
			return ""
		}
		show := func(l *blab, lists [][]int) string {
			var s []string
			for _, q := range lists {
				var p []string
				for _, k := range q {
					p = append(p, fmt.Sprintf("%d%s", kinds[k].n, l.m.toks[kinds[k].tok].name))
				}
				s = append(s, strings.Join(p, ","))
			}
			return strings.Join(s, " ; ")
		}
		_ = big.NewInt
		Parallel(c, 0, mk, func(yield func([][]int) bool) {
			// every ordered list of up to three (four) coins, repeats included
			if !Sequences(len(kinds), 1, Pick(c, 3, 4), func(seq []int) bool { return yield([][]int{append([]int{}, seq...)}) }) {
				return
			}
			// every pair of lists of one or two coins with distinct denominations, one after the other
			var two [][]int
			Sequences(len(kinds), 1, 2, func(seq []int) bool {
				if len(seq) == 1 || kinds[seq[0]].tok < kinds[seq[1]].tok {
					two = append(two, append([]int{}, seq...))
				}
				return true
			})
			for _, a := range two {
				for _, b := range two {
					if !c.Thorough() && len(a)+len(b) > 3 {
						continue
					}
					if !yield([][]int{a, b}) {
						return
					}
				}
			}
		}, func(l *blab, it [][]int) {
			name := show(l, it)
			c.Exec(name)
			c.State(name)
			c.Trans(len(it))
			if d := judge(l, it); d != "" {
				c.Violate("burn", name+" => "+d, name, func() string { return judge(mk(-1), it) })
			} else {
				c.Validated(1)
			}
		})
	})
}
