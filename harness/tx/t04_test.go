package tx

import (
	"fmt"
	"math/big"
	"testing"
	"time"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/ethereum/go-ethereum/common"

	. "github.com/initia-labs/minievm/verifmc/core"
)

var collector = common.BytesToAddress(authtypes.NewModuleAddress(authtypes.FeeCollectorName))

type t04item struct {
	form    string // legacy, access, dynamic, sdk, sdk2, sdkpayer
	out     string // ok, revert, oog
	grant   bool
	ratio   string
	gas     uint64 // 0: exactly what is needed
	plus    uint64
	price   *big.Int // wei for Ethereum forms; fee in units for others
	d       int
	value   bool
	history int // transactions of the same kind before it
}

func (it t04item) String() string {
	return fmt.Sprintf("%s %s grant=%v ratio=%s gas=%d+%d price=%s decimals=%d value=%v history=%d", it.form, it.out, it.grant, it.ratio, it.gas, it.plus, it.price, it.d, it.value, it.history)
}

// TestT04 decides that fees and refunds balance to the last unit.
func TestT04(t *testing.T) {
	Run("T04", "bounded", func(c *Check) {
		ds := Pick(c, []int{18, 6, 24}, []int{18, 0, 6, 9, 24, 30})
		mk := func(int) *lab {
			l := newLab(ds)
			limit := &feegrant.BasicAllowance{}
			Must(l.w.App.FeeGrantKeeper.GrantAllowance(l.base, granter.Acc(), alice.Acc(), limit))
			Must(l.w.App.FeeGrantKeeper.GrantAllowance(l.base, granter.Acc(), bob.Acc(), limit))
			return l
		}
		_ = time.Second
		build := func(l *lab, ctx sdk.Context, it t04item, gas uint64) (sdk.Tx, error) {
			to := map[string]common.Address{"ok": counter, "revert": revert, "oog": looper}[it.out]
			v := bi(0)
			if it.value {
				v = new(big.Int).Mul(bi(3), pow10(18))
				if it.d > 9 {
					v = new(big.Int).Mul(bi(3), pow10(9))
				}
			}
			typ := map[string]int{"legacy": 0, "access": 1, "dynamic": 2}
			if n, ok := typ[it.form]; ok {
				tx, err := l.w.EthToSDK(ctx, alice.SignEth(ethTx(n, l.seq(ctx, alice), &to, v, it.price, bi(0), gas, nil, nil)))
				if err != nil || !it.grant {
					return tx, err
				}
				f := decodeForm(l.w.Encode(tx)).clone()
				f.auth.Fee.Granter = granter.Acc().String()
				bz, err := f.encode()
				Must(err)
				return TxConfig().TxDecoder()(bz)
			}
			units := new(big.Int)
			if it.value {
				units.Div(new(big.Int).Mul(v, pow10(it.d)), pow10(18))
			}
			msg := msgCall(alice, to, units.Int64())
			o := TxOpts{Msgs: []sdk.Msg{msg}, Gas: gas, Fee: coins(l.denoms[it.d], it.price), Seq: l.seq(ctx, alice), AccNum: l.num(ctx, alice)}
			if it.price.Sign() == 0 {
				o.Fee = nil
			}
			switch it.form {
			case "sdk2":
				o.Msgs = []sdk.Msg{msgCall(alice, counter, 0), msg}
			case "sdkpayer":
				o.Payer, o.Key2, o.Seq2, o.AccNum2 = bob.Acc(), bob, l.seq(ctx, bob), l.num(ctx, bob)
			case "sdkmemo": // looks like an Ethereum transaction but is not signed as one
				o.Memo = `{"type":2,"gas_fee_cap":"1","gas_tip_cap":"0"}`
			}
			if it.grant {
				o.Granter = granter.Acc()
			}
			return alice.SignSDK(o), nil
		}
		judge := func(l *lab, it t04item) string {
			ctx := l.at(it.d)
			prm, err := l.w.K.Params.Get(ctx)
			Must(err)
			prm.GasRefundRatio = math.LegacyMustNewDecFromStr(it.ratio)
			Must(l.w.K.Params.Set(ctx, prm))
			denom := l.denoms[it.d]
			for i := 0; i < it.history; i++ {
				tx, err := build(l, ctx, it, 3_000_000)
				Must(err)
				if d := l.w.DeliverOn(ctx, tx); (d.Err == "") != (it.out == "ok") {
					return "history: " + d.Err
				}
			}
			gas := it.gas
			if gas == 0 {
				// what this transaction needs, found on a branch; the size of the numbers in it matters
				gas = 3_000_000
				for i := 0; i < 4; i++ {
					tx, err := build(l, ctx, it, gas)
					if err != nil {
						return err.Error()
					}
					d := l.w.DeliverOn(Branch(ctx), tx)
					if d.Err != "" && it.out == "ok" {
						break
					}
					if d.Gas == gas {
						break
					}
					gas = d.Gas
				}
				gas += it.plus
			}
			tx, err := build(l, ctx, it, gas)
			if err != nil {
				return err.Error()
			}
			fee := tx.(sdk.FeeTx).GetFee().AmountOf(denom).BigInt()
			payer := alice.Addr
			if it.form == "sdkpayer" {
				payer = bob.Addr
			}
			if it.grant {
				payer = granter.Addr
			}
			who := []common.Address{alice.Addr, bob.Addr, granter.Addr, collector, counter}
			before := map[common.Address]*big.Int{}
			for _, a := range who {
				before[a] = l.w.Bal(ctx, a, denom)
			}
			supply := l.w.Bank.GetSupply(ctx, denom).Amount
			seq := l.seq(ctx, alice)
			d := l.w.DeliverOn(ctx, tx)
			delta := map[common.Address]*big.Int{}
			for _, a := range who {
				delta[a] = new(big.Int).Sub(l.w.Bal(ctx, a, denom), before[a])
			}
			if s := l.w.Bank.GetSupply(ctx, denom).Amount; !s.Equal(supply) {
				return fmt.Sprintf("the supply changed from %s to %s", supply, s)
			}
			entered := l.seq(ctx, alice) != seq
			if !entered {
				c.Outcome("rejected")
				for _, a := range who {
					if delta[a].Sign() != 0 {
						return fmt.Sprintf("a rejected transaction moved %s of %s", delta[a], nameOf(a))
					}
				}
				if d.Err == "" {
					return "succeeded without consuming a sequence"
				}
				if gas >= 1_000_000 && it.out != "oog" {
					return "rejected: " + d.Err
				}
				return ""
			}
			value := new(big.Int)
			if d.Err == "" {
				if it.out != "ok" {
					return "succeeded"
				}
				if it.value {
					value = new(big.Int).Mul(bi(3), pow10(it.d))
					if it.d > 9 {
						value = new(big.Int).Mul(bi(3), pow10(it.d-9))
					}
				}
			} else if it.out == "ok" && gas >= 1_000_000 {
				return "failed: " + d.Err
			}
			isEth := it.form == "legacy" || it.form == "access" || it.form == "dynamic"
			// value
			if delta[counter].Cmp(value) != 0 {
				return fmt.Sprintf("the contract received %s, expected %s", delta[counter], value)
			}
			paid := new(big.Int).Neg(delta[payer])
			if payer == alice.Addr {
				paid.Sub(paid, value)
			}
			for _, a := range []common.Address{alice.Addr, bob.Addr, granter.Addr} {
				want := new(big.Int)
				if a == alice.Addr {
					want.Neg(value)
				}
				if a != payer && delta[a].Cmp(want) != 0 {
					return fmt.Sprintf("%s, who does not pay, changed by %s, expected %s", nameOf(a), delta[a], want)
				}
			}
			if delta[collector].Cmp(paid) != 0 {
				return fmt.Sprintf("the payer paid %s but the collector got %s", paid, delta[collector])
			}
			refund := new(big.Int).Sub(fee, paid)
			if refund.Sign() < 0 {
				return fmt.Sprintf("paid %s for a fee of %s", paid, fee)
			}
			if d.Gas > gas && d.Err == "" {
				return fmt.Sprintf("succeeded with %d gas of %d", d.Gas, gas)
			}
			if !isEth || d.Err != "" {
				if refund.Sign() != 0 {
					return fmt.Sprintf("refunded %s although no refund is due (%q)", refund, d.Err)
				}
				c.Outcome(fmt.Sprintf("no refund, ok=%v", d.Err == ""))
				return ""
			}
			// exact refund: fee * floor(ratio * left) / gas
			ratio := math.LegacyMustNewDecFromStr(it.ratio)
			left := new(big.Int).SetUint64(gas - d.Gas)
			units := new(big.Int).Div(new(big.Int).Mul(ratio.BigInt(), left), pow10(18))
			exact := new(big.Rat).SetFrac(new(big.Int).Mul(fee, units), new(big.Int).SetUint64(gas))
			r := new(big.Rat).SetInt(refund)
			if r.Cmp(exact) > 0 {
				return fmt.Sprintf("refunded %s of a fee of %s with %d of %d gas used, at most %s is due", refund, fee, d.Gas, gas, exact.FloatString(6))
			}
			if new(big.Rat).Sub(exact, r).Cmp(big.NewRat(1, 1)) > 0 {
				return fmt.Sprintf("refunded %s of a fee of %s with %d of %d gas used, %s is due", refund, fee, d.Gas, gas, exact.FloatString(6))
			}
			c.Outcome(fmt.Sprintf("refund positive=%v", refund.Sign() > 0))
			return ""
		}
		Parallel(c, 8, mk, func(yield func(t04item) bool) {
			for _, d := range ds {
				for _, form := range []string{"legacy", "access", "dynamic", "sdk", "sdk2", "sdkpayer", "sdkmemo"} {
					prices := []*big.Int{bi(0), bi(1), bi(999_999_999), pow10(9), new(big.Int).Mul(bi(7), pow10(11))}
					if form[0] == 's' {
						prices = []*big.Int{bi(0), bi(1), bi(123_457), new(big.Int).Mul(bi(1), pow10(min(d, 12)))}
					}
					for _, out := range []string{"ok", "revert", "oog"} {
						for _, grant := range []bool{false, true} {
							for _, ratio := range Pick(c, []string{"0", "0.5", "1", "0.333333333333333333"}, []string{"0", "0.000000000000000001", "0.5", "1", "0.333333333333333333", "0.999999999999999999"}) {
								for _, price := range prices {
									for _, v := range []bool{false, true} {
										if v && (out != "ok" || d == 0) {
											continue
										}
										for _, g := range [][2]uint64{{0, 0}, {0, 1}, {0, 2}, {0, 1000}, {60_000, 0}, {1_000_001, 0}, {50_000_000, 0}} {
											if !c.Thorough() && (d != 18 && (form == "access" || form == "sdkmemo" || g[0] == 60_000)) {
												continue
											}
											if out == "oog" && (g[0] == 0 || g[0] > 2_000_000) {
												continue
											}
											if g[0] == 50_000_000 && price.Cmp(pow10(11)) > 0 && form[0] != 's' {
												continue
											}
											for h := 0; h < 2; h++ {
												if h > 0 && (g[0] != 1_000_001 || out == "oog") {
													continue
												}
												if !yield(t04item{form, out, grant, ratio, g[0], g[1], price, d, v, h}) {
													return
												}
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}, func(l *lab, it t04item) {
			name := it.String()
			c.Exec(name)
			c.State(name)
			c.Trans(1)
			c.Validated(1)
			c.Sample(name)
			if d := judge(l, it); d != "" {
				c.Violate("balance", name+" => "+d, name, func() string { return judge(l, it) })
			}
		})
		c.Assume("the refund may fall below the exact amount by at most one unit, from the price kept with 18 decimals")
	})
}

func nameOf(a common.Address) string {
	for n, k := range map[string]common.Address{"alice": alice.Addr, "bob": bob.Addr, "granter": granter.Addr, "collector": collector, "counter": counter} {
		if k == a {
			return n
		}
	}
	return a.Hex()
}
