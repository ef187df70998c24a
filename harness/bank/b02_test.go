package bank

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	customtypes "github.com/initia-labs/initia/x/bank/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// listing checks one listing of coins: every entry is right and occurs once, none is missing.
func listing(what string, got sdk.Coins, must, may map[string]string) string {
	seen := map[string]bool{}
	for _, c := range got {
		if seen[c.Denom] {
			return fmt.Sprintf("%s lists %s twice: %s", what, c.Denom, got)
		}
		seen[c.Denom] = true
		v, ok := must[c.Denom]
		if !ok {
			v, ok = may[c.Denom]
		}
		if !ok || v != c.Amount.String() {
			return fmt.Sprintf("%s lists %s, expected %q", what, c, v)
		}
	}
	for d := range must {
		if !seen[d] {
			return fmt.Sprintf("%s misses %s: %s", what, d, got)
		}
	}
	return ""
}

type pager func(*query.PageRequest) (sdk.Coins, *query.PageResponse, error)

// pages walks a listing in every way a client can.
func pages(what string, total int, f pager) (map[string]sdk.Coins, string) {
	out := map[string]sdk.Coins{}
	full, res, err := f(&query.PageRequest{Limit: 1000, CountTotal: true})
	if err != nil {
		return nil, what + ": " + err.Error()
	}
	if res == nil || res.NextKey != nil {
		return nil, what + ": a complete page has a next key"
	}
	if res.Total != uint64(len(full)) {
		return nil, fmt.Sprintf("%s: total %d of %d", what, res.Total, len(full))
	}
	out["all"] = full
	def, _, err := f(nil)
	if err != nil {
		return nil, what + ": " + err.Error()
	}
	out["default page"] = def
	for _, rev := range []bool{false, true} {
		for lim := uint64(1); lim <= uint64(len(full))+1; lim++ {
			var cs sdk.Coins
			var key []byte
			for i := 0; ; i++ {
				if i > len(full)+2 {
					return nil, fmt.Sprintf("%s: limit %d never ends", what, lim)
				}
				g, r, err := f(&query.PageRequest{Limit: lim, Key: key, Reverse: rev})
				if err != nil {
					return nil, fmt.Sprintf("%s: limit %d: %v", what, lim, err)
				}
				if uint64(len(g)) > lim {
					return nil, fmt.Sprintf("%s: a page of %d entries with limit %d", what, len(g), lim)
				}
				cs = append(cs, g...)
				key = r.NextKey
				if key == nil {
					break
				}
			}
			out[fmt.Sprintf("by key limit=%d reverse=%v", lim, rev)] = cs
			cs = nil
			for off := uint64(0); off <= uint64(len(full)); off += lim {
				g, r, err := f(&query.PageRequest{Limit: lim, Offset: off, Reverse: rev, CountTotal: true})
				if err != nil {
					return nil, fmt.Sprintf("%s: offset %d: %v", what, off, err)
				}
				if r.Total != uint64(len(full)) {
					return nil, fmt.Sprintf("%s: offset %d limit %d: total %d of %d", what, off, lim, r.Total, len(full))
				}
				cs = append(cs, g...)
			}
			out[fmt.Sprintf("by offset limit=%d reverse=%v", lim, rev)] = cs
		}
	}
	return out, ""
}

// bankView compares the bank's whole view with the token contracts' (which the model equals).
func (l *lab) bankView(ctx sdk.Context, m *model) string {
	if d := l.contracts(ctx, m); d != "" {
		return d
	}
	if d := l.sum(ctx, m); d != "" {
		return d
	}
	bk := l.w.App.BankKeeper
	// registry: each token once
	it, err := l.w.K.ERC20s.Iterate(ctx, nil)
	Must(err)
	keys, err := it.Keys()
	Must(err)
	supM, supMay := map[string]string{}, map[string]string{}
	for _, t := range m.toks {
		if t.reg {
			if t.supply.Sign() != 0 {
				supM[t.denom] = t.supply.String()
			} else {
				supMay[t.denom] = "0"
			}
		}
	}
	if len(keys) != len(supM)+len(supMay) {
		return fmt.Sprintf("%d tokens registered, expected %d", len(keys), len(supM)+len(supMay))
	}
	ps, d := pages("total supply", 0, func(p *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
		r, err := bk.TotalSupply(ctx, &banktypes.QueryTotalSupplyRequest{Pagination: p})
		if err != nil {
			return nil, nil, err
		}
		return r.Supply, r.Pagination, nil
	})
	if d != "" {
		return d
	}
	for n, cs := range ps {
		if d := listing("total supply "+n, cs, supM, supMay); d != "" {
			return d
		}
	}
	var cs sdk.Coins
	bk.IterateTotalSupply(ctx, func(c sdk.Coin) bool { cs = append(cs, c); return false })
	if d := listing("supply walk", cs, supM, supMay); d != "" {
		return d
	}
	// tokens one by one
	for _, t := range m.toks {
		r, err := bk.SupplyOf(ctx, &banktypes.QuerySupplyOfRequest{Denom: t.denom})
		if err != nil || r.Amount.Amount.BigInt().Cmp(t.supply) != 0 || r.Amount.Denom != t.denom {
			return fmt.Sprintf("supply of %s is %v (%v), expected %s", t.name, r, err, t.supply)
		}
		if bk.HasSupply(ctx, t.denom) != t.reg {
			return fmt.Sprintf("has-supply of %s is %v", t.name, !t.reg)
		}
		md, err := bk.DenomMetadata(ctx, &banktypes.QueryDenomMetadataRequest{Denom: t.denom})
		if err != nil {
			return fmt.Sprintf("metadata of %s: %v", t.name, err)
		}
		name := t.name
		if t.chain {
			name = t.denom
		}
		if md.Metadata.Name != name || md.Metadata.Symbol != name || md.Metadata.Base != t.denom {
			return fmt.Sprintf("metadata of %s is %v", t.name, md.Metadata)
		}
		dec, err := l.w.K.ERC20Keeper().GetDecimals(ctx, t.denom)
		want := uint8(6)
		if t.chain {
			want = 0
			if t.denom == FeeDenom {
				want = 18
			}
		}
		if err != nil || dec != want {
			return fmt.Sprintf("decimals of %s are %d (%v), expected %d", t.name, dec, err, want)
		}
	}
	all := map[string]sdk.Coins{}
	for _, p := range l.parties {
		must, may := map[string]string{}, map[string]string{}
		for _, t := range m.toks {
			b := t.b(p)
			g, err := bk.Balance(ctx, &banktypes.QueryBalanceRequest{Address: acc(p).String(), Denom: t.denom})
			if err != nil || g.Balance.Amount.BigInt().Cmp(b) != 0 || g.Balance.Denom != t.denom {
				return fmt.Sprintf("balance of %s in %s is %v (%v), expected %s", nm(p), t.name, g, err, b)
			}
			s, err := bk.SpendableBalanceByDenom(ctx, &banktypes.QuerySpendableBalanceByDenomRequest{Address: acc(p).String(), Denom: t.denom})
			if err != nil || s.Balance.Amount.BigInt().Cmp(b) != 0 {
				return fmt.Sprintf("spendable balance of %s in %s is %v (%v), expected %s", nm(p), t.name, s, err, b)
			}
			for _, x := range []int64{0, 1} {
				if b.Cmp(maxU) == 0 && x == 1 {
					continue
				}
				if h := bk.HasBalance(ctx, acc(p), sdk.NewCoin(t.denom, math.NewIntFromBigInt(b).AddRaw(x))); h != (x == 0) {
					return fmt.Sprintf("has-balance of %s in %s at balance+%d is %v", nm(p), t.name, x, h)
				}
			}
			if !t.reg {
				continue
			}
			if b.Sign() != 0 {
				must[t.denom] = b.String()
			} else if t.holders[p] {
				may[t.denom] = "0"
			}
		}
		ps, d := pages("balances of "+nm(p), 0, func(pr *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
			r, err := bk.AllBalances(ctx, &banktypes.QueryAllBalancesRequest{Address: acc(p).String(), Pagination: pr})
			if err != nil {
				return nil, nil, err
			}
			return r.Balances, r.Pagination, nil
		})
		if d != "" {
			return d
		}
		sp, err := bk.SpendableBalances(ctx, &banktypes.QuerySpendableBalancesRequest{Address: acc(p).String(), Pagination: &query.PageRequest{Limit: 100}})
		if err != nil {
			return err.Error()
		}
		ps["spendable"] = sp.Balances
		ps["keeper"] = bk.GetAllBalances(ctx, acc(p))
		ps["keeper spendable"] = bk.SpendableCoins(ctx, acc(p))
		var w sdk.Coins
		bk.IterateAccountBalances(ctx, acc(p), func(c sdk.Coin) bool { w = append(w, c); return false })
		ps["walk"] = w
		for n, cs := range ps {
			if d := listing("balances of "+nm(p)+" "+n, cs, must, may); d != "" {
				return d
			}
		}
		all[nm(p)] = ps["keeper"]
	}
	// every holder once, adding up to the supply
	sums := sdk.Coins{}
	seen := map[common.Address]bool{}
	for _, b := range bk.GetAccountsBalances(ctx) {
		a, err := sdk.AccAddressFromBech32(b.Address)
		Must(err)
		e := common.BytesToAddress(a)
		if seen[e] {
			return fmt.Sprintf("the holder listing has %s twice", nm(e))
		}
		seen[e] = true
		sums = sums.Add(b.Coins...)
		if n, ok := partyNames[e]; ok && !b.Coins.Equal(all[n]) {
			return fmt.Sprintf("the holder listing gives %s %s, expected %s", n, b.Coins, all[n])
		}
	}
	if d := listing("sum over holders", sums, supM, supMay); d != "" {
		return d
	}
	return ""
}

func TestB02(t *testing.T) {
	Run("B02", "model_checking", func(c *Check) {
		builders := func(l *lab, m0 *model) []op {
			stake, foo, fac, cus, unr := m0.toks[0], m0.toks[1], m0.toks[2], m0.toks[3], m0.toks[4]
			o := []op{
				l.opSend(u1, longA, coins(m0, "stake", 7, "fac", 80, "cus", 1)),
				l.opSend(u1, u2, coins(m0, "stake", 100, "ufoo", 50)),
				l.opSend(longA, u2, coins(m0, "stake", 7)),
				l.opTok(fac, longA, "transfer", con, n(80)),
				l.opTok(fac, u2, "transfer", longA, n(10)),
				l.opTok(stake, u1, "transfer", con, n(100)),
				l.opNative(u1, con, 40),
				l.opTok(foo, u1, "burn", n(50)), l.opTok(foo, u2, "burn", n(20)),
				l.opTok(unr, u2, "transfer", u1, n(30)),
				l.opTok(cus, u1, "burn", n(40)),
				l.opTok(fac, u1, "mint", longA, maxU), l.opTok(cus, u1, "mint", u1, maxU), l.opTok(cus, u1, "mint", u2, n(5)),
				l.opModule("acc2mod", u1, modT, coins(m0, "stake", 10, "fac", 8)),
				l.opModule("burn", modT, modT, coins(m0, "stake", 10, "fac", 8)),
				l.opModule("mint", modT, modT, coins(m0, "stake", 5)),
				l.opTok(stake, u1, "transfer", u2, n(0)),
			}
			return o
		}
		WalkOps[*model](c, "bank-view", Pick(c, 2, 3), func(int) OpSys[*model] {
			return sys{newLab(c), func(l *lab, m *model) []op { return builders(l, l.m) }, func(l *lab, ctx sdk.Context, m *model) string { return l.bankView(ctx, m) }}
		})

		// stored metadata overrides exactly its own denomination
		l := newLab(c)
		auth := l.w.App.BankKeeper.GetAuthority()
		ctx := Branch(l.base)
		ctx = Fresh(ctx, 1<<50)
		md := func(d, n string) banktypes.Metadata {
			return banktypes.Metadata{Base: d, Display: d, Name: n, Symbol: strings.ToUpper(n), DenomUnits: []*banktypes.DenomUnit{{Denom: d}}}
		}
		set := map[string]string{}
		var judge func(seq []int) string
		targets := []string{FeeDenom, "ufoo", l.m.toks[2].denom, "never"}
		judge = func(seq []int) string {
			cc := Fresh(Branch(ctx), 1<<50)
			set = map[string]string{}
			for i, s := range seq {
				who := auth
				if s >= len(targets) {
					who = acc(u1).String()
				}
				tgt := targets[s%len(targets)]
				err := l.msg(cc, &customtypes.MsgSetDenomMetadata{Authority: who, Metadata: md(tgt, fmt.Sprintf("n%d", i))})
				if (err == nil) != (s < len(targets)) {
					return fmt.Sprintf("step %d: %v", i, err)
				}
				if err == nil {
					set[tgt] = fmt.Sprintf("n%d", i)
				}
			}
			var names []string
			for _, tgt := range targets {
				r, err := l.w.App.BankKeeper.DenomMetadata(cc, &banktypes.QueryDenomMetadataRequest{Denom: tgt})
				want, ok := set[tgt]
				switch {
				case ok && (err != nil || r.Metadata.Name != want):
					return fmt.Sprintf("metadata of %s is %v (%v), expected %s", tgt, r, err, want)
				case !ok && tgt == "never" && err == nil:
					return "metadata of a denomination that does not exist"
				case !ok && tgt != "never" && (err != nil || r.Metadata.Base != tgt || strings.HasPrefix(r.Metadata.Name, "n") && len(r.Metadata.Name) == 2):
					return fmt.Sprintf("metadata of %s is %v (%v)", tgt, r, err)
				}
				if ok {
					names = append(names, tgt)
				}
			}
			sort.Strings(names)
			for lim := uint64(1); lim <= 5; lim++ {
				var got []string
				var key []byte
				for {
					r, err := l.w.App.BankKeeper.DenomsMetadata(cc, &banktypes.QueryDenomsMetadataRequest{Pagination: &query.PageRequest{Limit: lim, Key: key}})
					if err != nil {
						return err.Error()
					}
					for _, x := range r.Metadatas {
						got = append(got, x.Base)
					}
					if key = r.Pagination.NextKey; key == nil {
						break
					}
				}
				sort.Strings(got)
				if fmt.Sprint(got) != fmt.Sprint(names) {
					return fmt.Sprintf("stored metadata listing with limit %d is %v, expected %v", lim, got, names)
				}
			}
			return ""
		}
		Sequences(2*len(targets), 0, Pick(c, 2, 3), func(seq []int) bool {
			s := fmt.Sprint("metadata", seq)
			c.Exec(s)
			c.Trans(len(seq))
			c.State(s)
			q := append([]int{}, seq...)
			if d := judge(q); d != "" {
				c.Violate("metadata", s+" => "+d, q, func() string { return judge(q) })
			} else {
				c.Validated(1)
			}
			return !c.Expired()
		})

		// a token that does not answer properly never hides or distorts the others
		hostile := map[string][]byte{
			"burns all gas": {0xfe}, "reverts": {0x5f, 0x5f, 0xfd}, "never returns": {0x5b, 0x5f, 0x56}, "returns nothing": {0x00}, "returns 31 bytes": {0x60, 31, 0x5f, 0xf3},
			"grows memory": {0x5f, 0x64, 1, 0, 0, 0, 0, 0x52}, "returns too much": NewAsm().PushB(maxU.Bytes()).Push(0).Op(0x52).PushB(maxU.Bytes()).Push(32).Op(0x52).Push(64).Push(0).Op(0xf3).Bytes(),
			"calls itself": NewAsm().Push(0).Push(0).Push(0).Push(0).Op(0x30, 0x5a, 0xfa).Push(0).Push(0).Op(0xfd).Bytes(), "has no code": nil,
			"returns five": {0x60, 5, 0x5f, 0x52, 0x60, 32, 0x5f, 0xf3},
		}
		var kinds []string
		for k := range hostile {
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		rl := newRegLab(c)
		in := func(fn string, args ...any) []byte { b, err := rl.abi.Pack(fn, args...); Must(err); return b }
		face := func(seq []int) string {
			cc := Fresh(Branch(rl.base), 1<<50)
			other := map[string]string{}
			for i, k := range seq {
				a := []common.Address{rl.f1, rl.f2}[i]
				mustCall(rl.evm(cc, u1, a, fwd(0, regAddr, in("register_erc20")), 0))
				mustCall(rl.evm(cc, u1, a, fwd(0, regAddr, in("register_erc20_store", u1)), 0))
				rl.w.SetCode(cc, a, hostile[kinds[k]])
				other[evmDenom(a)] = kinds[k]
			}
			view := func(gm storetypes.GasMeter) string {
				ctx := cc.WithGasMeter(gm)
				bk := rl.w.App.BankKeeper
				sup, bal := map[string]string{}, map[string]string{}
				for _, t := range rl.m.toks {
					if t.reg {
						sup[t.denom] = t.supply.String()
						if t.b(u1).Sign() != 0 {
							bal[t.denom] = t.b(u1).String()
						}
					}
				}
				check := func(what string, cs sdk.Coins, must map[string]string) string {
					var rest sdk.Coins
					n := map[string]int{}
					for _, x := range cs {
						if k, ok := other[x.Denom]; ok {
							n[x.Denom]++
							ok := x.Amount.IsZero() || k == "returns five" && x.Amount.Int64() == 5 || k == "returns too much" && x.Amount.BigInt().Cmp(maxU) == 0
							if !ok || n[x.Denom] > 1 {
								return fmt.Sprintf("%s lists %s for the token that %s", what, x, k)
							}
						} else {
							rest = append(rest, x)
						}
					}
					return listing(what, rest, must, nil)
				}
				s, err := bk.TotalSupply(ctx, &banktypes.QueryTotalSupplyRequest{Pagination: &query.PageRequest{Limit: 100}})
				if err != nil {
					return "total supply: " + err.Error()
				}
				if d := check("total supply", s.Supply, sup); d != "" {
					return d
				}
				b, err := bk.AllBalances(ctx, &banktypes.QueryAllBalancesRequest{Address: acc(u1).String(), Pagination: &query.PageRequest{Limit: 100}})
				if err != nil {
					return "balances: " + err.Error()
				}
				if d := check("balances", b.Balances, bal); d != "" {
					return d
				}
				if d := check("keeper balances", bk.GetAllBalances(ctx, acc(u1)), bal); d != "" {
					return d
				}
				if ctx.GasMeter().Limit() > 1<<60 { // the genesis export
					for _, x := range bk.GetAccountsBalances(ctx) {
						if x.Address == acc(u1).String() {
							return check("holder listing", x.Coins, bal)
						}
					}
					return "the holder listing misses u1"
				}
				return ""
			}
			meters := []storetypes.GasMeter{storetypes.NewInfiniteGasMeter()}
			if len(seq) == 1 {
				meters = append(meters, storetypes.NewGasMeter(3_000_000)) // a node's default for queries
			}
			for _, gm := range meters {
				res := make(chan string, 1)
				go func() {
					var d string
					if p := Try(func() { d = view(gm) }); p != "" {
						d = p
					}
					res <- d
				}()
				select {
				case d := <-res:
					if d != "" {
						return d
					}
				case <-time.After(60 * time.Second):
					return "a bank listing does not end"
				}
			}
			return ""
		}
		Sequences(len(kinds), 1, 2, func(seq []int) bool {
			s := "hostile"
			for _, k := range seq {
				s += ", " + kinds[k]
			}
			c.Exec(s)
			c.Trans(1)
			c.State(s)
			q := append([]int{}, seq...)
			if d := face(q); d != "" {
				c.Violate("hostile-token", s+" => "+d, q, func() string { return d })
				if strings.Contains(d, "does not end") {
					return false
				}
			} else {
				c.Validated(1)
			}
			return !c.Expired() && c.Violations() < 10
		})
	})
}
