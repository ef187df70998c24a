package tx

import (
	"fmt"
	"math/big"
	"testing"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/holiman/uint256"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// floorRat is the largest integer not above r.
func floorRat(r *big.Rat) *big.Int {
	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	_ = m
	return q
}

func boundary(maxPow int) []*big.Int {
	seen := map[string]bool{}
	var out []*big.Int
	add := func(x *big.Int) {
		if x.Sign() >= 0 && x.BitLen() <= 256 && !seen[x.String()] {
			seen[x.String()] = true
			out = append(out, x)
		}
	}
	for i := int64(0); i <= 12; i++ {
		add(bi(i))
	}
	for k := 1; k <= maxPow; k++ {
		for _, m := range []int64{1, 2, 5, 9} {
			p := new(big.Int).Mul(pow10(k), bi(m))
			for _, o := range []int64{-1, 0, 1} {
				add(new(big.Int).Add(p, bi(o)))
			}
		}
	}
	for k := 8; k <= 256; k += 8 {
		p := new(big.Int).Lsh(bi(1), uint(k))
		for _, o := range []int64{-1, 0, 1} {
			add(new(big.Int).Add(p, bi(o)))
		}
	}
	return out
}

// TestT06 decides that amounts convert exactly between token and Ethereum units.
func TestT06(t *testing.T) {
	Run("T06", "bounded", func(c *Check) {
		amounts := boundary(Pick(c, 40, 77))
		// part 1: the helpers, for every decimals setting
		type fn struct {
			name string
			f    func(uint8, *big.Int) *big.Int
			to   bool // token to Ethereum
			base int
		}
		fns := []fn{{"to-ether", evmtypes.ToEthersUint, true, 18}, {"from-ether", evmtypes.FromEthersUnit, false, 18},
			{"to-gwei", evmtypes.ToGweiUint, true, 9}, {"from-gwei", evmtypes.FromGweiUnit, false, 9}}
		judge := func(f fn, d int, x *big.Int) string {
			in := new(big.Int).Set(x)
			got := f.f(uint8(d), x)
			if in.Cmp(x) != 0 {
				return "the argument was changed"
			}
			var exact *big.Rat
			if f.to {
				exact = new(big.Rat).Mul(new(big.Rat).SetInt(x), new(big.Rat).SetFrac(pow10(f.base), pow10(d)))
			} else {
				exact = new(big.Rat).Mul(new(big.Rat).SetInt(x), new(big.Rat).SetFrac(pow10(d), pow10(f.base)))
			}
			if want := floorRat(exact); want.Cmp(got) != 0 {
				return fmt.Sprintf("%s with %d decimals of %s is %s, expected %s", f.name, d, x, got, want)
			}
			return ""
		}
		type job struct {
			f fn
			d int
		}
		Parallel(c, 0, func(int) struct{} { return struct{}{} }, func(yield func(job) bool) {
			for _, f := range fns {
				for d := 0; d < 256; d++ {
					if !yield(job{f, d}) {
						return
					}
				}
			}
		}, func(_ struct{}, j job) {
			for _, x := range amounts {
				c.Trans(1)
				d := judge(j.f, j.d, x)
				c.Exec(fmt.Sprint(j.f.name, "/", j.d, "/", x))
				if d != "" {
					c.Violate("conversion", d, []any{j.f.name, j.d, x.String()}, func() string { return judge(j.f, j.d, x) })
				}
				// there and back never creates value and is exact when representable
				if j.f.to {
					y := evmtypes.FromEthersUnit(uint8(j.d), evmtypes.ToEthersUint(uint8(j.d), x))
					if y.Cmp(x) > 0 || (j.d <= 18 && y.Cmp(x) != 0) {
						c.Violate("round-trip", fmt.Sprintf("%s units of %d decimals come back as %s", x, j.d, y), []any{j.d, x.String()}, nil)
					}
				}
			}
			c.State(fmt.Sprint(j.f.name, j.d))
		})

		// part 2: value and fee of real transactions, for fee tokens of several decimals
		type item struct {
			d          int
			value, cap *big.Int
			gas        uint64
			typ        int
		}
		var items []item
		for _, d := range append(append([]int{}, decimalsSet...), 77, 246, 247, 255) {
			vals := []*big.Int{bi(0), bi(1), bi(999), bi(1000)}
			for _, k := range Pick(c, []int{6, 9, 12, 16, 18, 19}, []int{3, 6, 8, 9, 10, 12, 15, 16, 17, 18, 19, 21, 24}) {
				for _, o := range []int64{-1, 0, 1} {
					vals = append(vals, new(big.Int).Add(pow10(k), bi(o)))
				}
				vals = append(vals, new(big.Int).Mul(pow10(k), bi(7)))
			}
			for _, v := range vals {
				items = append(items, item{d, v, bi(0), 400_000, 2})
			}
			for _, cp := range []*big.Int{bi(1), bi(9999), pow10(4), pow10(7), new(big.Int).Sub(pow10(9), bi(1)), pow10(9), new(big.Int).Add(pow10(9), bi(1)), pow10(13), new(big.Int).Add(pow10(13), bi(1))} {
				for _, g := range []uint64{400_000, 400_001, 423_457} {
					for typ := 0; typ < 3; typ++ {
						items = append(items, item{d, bi(0), cp, g, typ})
					}
				}
			}
		}
		judgeTx := func(l *lab, it item) string {
			d := it.d
			ctx := l.at(d)
			denom := l.denoms[d]
			to := sink
			t := alice.SignEth(ethTx(it.typ, l.seq(ctx, alice), &to, it.value, it.cap, bi(0), it.gas, nil, nil))
			tx, err := l.w.EthToSDK(ctx, t)
			amount := units(it.value, d)
			if !amount.IsInt() {
				if err == nil {
					return fmt.Sprintf("a value of %s wei was accepted although it is %s units", it.value, amount)
				}
				return ""
			}
			if err != nil && (amount.Num().BitLen() > 256 || units(new(big.Int).Mul(it.cap, new(big.Int).SetUint64(it.gas)), d).Cmp(new(big.Rat).SetInt(new(big.Int).Lsh(bi(1), 255))) > 0) {
				return "" // beyond 256 bits
			}
			if err != nil {
				return "a representable value was refused: " + err.Error()
			}
			fee := tx.(sdk.FeeTx).GetFee().AmountOf(denom).BigInt()
			exactFee := units(new(big.Int).Mul(it.cap, new(big.Int).SetUint64(it.gas)), d)
			f := new(big.Rat).SetInt(fee)
			if f.Cmp(exactFee) < 0 {
				return fmt.Sprintf("the fee %s is below %s", fee, exactFee)
			}
			if new(big.Rat).Sub(f, exactFee).Cmp(big.NewRat(1, 1)) > 0 {
				return fmt.Sprintf("the fee %s is over %s by more than one unit", fee, exactFee)
			}
			before, sb := l.w.Bal(ctx, alice.Addr, denom), l.w.Bal(ctx, sink, denom)
			total := new(big.Int).Add(new(big.Int).SetBit(new(big.Int), 0, 0), amount.Num())
			total.Add(total, fee)
			dl := l.w.DeliverOn(ctx, tx)
			if before.Cmp(total) < 0 {
				if dl.Err == "" {
					return fmt.Sprintf("spent %s of %s", total, before)
				}
				return ""
			}
			if dl.Err != "" {
				return "delivery failed: " + dl.Err
			}
			got := new(big.Int).Sub(l.w.Bal(ctx, sink, denom), sb)
			if got.Cmp(amount.Num()) != 0 {
				return fmt.Sprintf("the target received %s units for %s wei, expected %s", got, it.value, amount.Num())
			}
			spent := new(big.Int).Sub(before, l.w.Bal(ctx, alice.Addr, denom))
			if spent.Cmp(total) > 0 || spent.Cmp(amount.Num()) < 0 {
				return fmt.Sprintf("the sender spent %s for a value of %s and a fee of %s", spent, amount.Num(), fee)
			}
			return ""
		}
		Parallel(c, Pick(c, 4, 8), func(int) *lab { return newLab(append(append([]int{}, decimalsSet...), 77, 246, 247, 255)) }, func(yield func(item) bool) {
			for _, it := range items {
				if !yield(it) {
					return
				}
			}
		}, func(l *lab, it item) {
			name := fmt.Sprintf("decimals=%d value=%s cap=%s gas=%d type=%d", it.d, it.value, it.cap, it.gas, it.typ)
			c.Exec(name)
			c.Trans(1)
			c.Validated(1)
			c.Sample(name)
			if d := judgeTx(l, it); d != "" {
				c.Violate("transaction", name+" => "+d, name, func() string { return judgeTx(l, it) })
			}
		})

		// part 3: prices, the same for every decimals setting
		l := newLab(append(append([]int{}, decimalsSet...), 77, 246, 247, 255))
		for d := range l.denoms {
			for _, p := range []string{"0", "0.000000000000000001", "0.000000001", "0.0015", "0.15", "1", "1.5", "1000000", "150000000000", "1000000000000000000"} {
				judgePrice := func() string {
					ctx := l.at(d)
					price := math.LegacyMustNewDecFromStr(p)
					op, err := l.w.App.OPChildKeeper.GetParams(ctx)
					Must(err)
					op.MinGasPrices = sdk.NewDecCoins(sdk.NewDecCoinFromDec(l.denoms[d], price))
					Must(l.w.App.OPChildKeeper.SetParams(ctx, op))
					got, err := l.w.K.BaseFee(ctx)
					if err != nil {
						return err.Error()
					}
					// wei per gas; prices keep nine decimals below the token unit
					exact := new(big.Rat).Mul(new(big.Rat).SetFrac(price.BigInt(), pow10(18)), new(big.Rat).SetFrac(pow10(18), pow10(d)))
					g := new(big.Rat).SetInt(got)
					if g.Cmp(exact) > 0 {
						return fmt.Sprintf("base fee %s for a price of %s with %d decimals, which is %s", got, p, d, exact.FloatString(3))
					}
					tol := new(big.Rat).SetFrac(pow10(18), pow10(d+9))
					if tol.Cmp(big.NewRat(1, 1)) < 0 {
						tol = big.NewRat(1, 1)
					}
					if new(big.Rat).Sub(exact, g).Cmp(tol) >= 0 {
						return fmt.Sprintf("base fee %s for a price of %s with %d decimals, which is %s", got, p, d, exact.FloatString(3))
					}
					return ""
				}
				c.Exec(fmt.Sprint("price/", d, "/", p))
				c.Trans(1)
				if v := judgePrice(); v != "" {
					c.Violate("price", v, []any{d, p}, judgePrice)
				}
			}
		}
		_ = uint256.NewInt
		c.Note("amounts", len(amounts))
		c.Note("transactions", len(items))
		c.Assume("the helper functions are total functions of (decimals, amount); amounts are taken around every power of ten and of 2^8")
	})
}
