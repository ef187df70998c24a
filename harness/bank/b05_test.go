package bank

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// sendLab delivers real transactions to the application.
type sendLab struct {
	*lab
	key     *Key
	num     uint64
	restore func()
}

var sendKey = NewKey("bank-sender")

func newSendLab(c *Check) *sendLab {
	w := NewWorld(WorldCfg{GenAccs: []authtypes.GenesisAccount{sendKey.GenAccount(0)}})
	w.StartBlock(2, GenesisTime.Add(2*time.Second))
	partyNames[sendKey.Addr] = "sender"
	l := &sendLab{lab: newLabOn(c, w, w.Ctx()), key: sendKey}
	l.parties = append(l.parties, sendKey.Addr)
	m := l.m
	for _, t := range []struct {
		t *token
		n int64
	}{{m.toks[0], 60}, {m.toks[1], 30}, {m.toks[2], 50}, {m.toks[3], 20}} {
		Must(l.tok(l.base, u1, t.t.addr, "transfer", l.key.Addr, n(t.n)))
		if !t.t.move(u1, l.key.Addr, n(t.n)) {
			panic(HarnessFault("funds"))
		}
	}
	l.num = w.App.AccountKeeper.GetAccount(l.base, l.key.Acc()).GetAccountNumber()
	l.restore = w.Save()
	return l
}

type sendCfg struct {
	def     bool
	enabled map[string]bool
}

func (s sendCfg) String() string { return fmt.Sprintf("default=%v %v", s.def, s.enabled) }

func (l *sendLab) configure(ctx sdk.Context, m *model, s sendCfg) {
	bk := l.w.App.BankKeeper
	Must(l.msg(ctx, &banktypes.MsgUpdateParams{Authority: bk.GetAuthority(), Params: banktypes.NewParams(s.def)}))
	m.def = s.def
	var e []*banktypes.SendEnabled
	for d, v := range s.enabled {
		if t := m.byName(d); t != nil {
			d = t.denom
		}
		e = append(e, &banktypes.SendEnabled{Denom: d, Enabled: v})
		m.enabled[d] = v
	}
	if len(e) > 0 {
		Must(l.msg(ctx, &banktypes.MsgSetSendEnabled{Authority: bk.GetAuthority(), SendEnabled: e}))
	}
}

func (l *sendLab) judge(cfg sendCfg, to string, toA common.Address, cs sdk.Coins) string {
	l.restore()
	ctx := l.w.Ctx()
	m := l.m.clone()
	l.configure(ctx, m, cfg)
	want := m.clone()
	ok := validCoins(cs) && !blocked(toA)
	for _, c := range cs {
		if ok && !m.sendable(c.Denom) {
			ok = false
		}
	}
	if ok {
		ok = want.moveCoins(l.key.Addr, toA, cs)
	}
	if !ok {
		want = m
	}
	var d Delivered
	if p := Try(func() {
		d = l.w.Deliver(l.key.SignSDK(TxOpts{Msgs: []sdk.Msg{&banktypes.MsgSend{FromAddress: l.key.Acc().String(), ToAddress: to, Amount: cs}}, Gas: 5_000_000, Fee: sdk.Coins{}, Seq: 0, AccNum: l.num}))
	}); p != "" {
		return p
	}
	if (d.Err == "") != ok {
		return fmt.Sprintf("succeeds=%v (%s), expected %v", d.Err == "", d.Err, ok)
	}
	return l.contracts(l.w.Ctx(), want)
}

func TestB05(t *testing.T) {
	Run("B05", "model_checking", func(c *Check) {
		cfgs := []sendCfg{
			{true, nil},
			{false, nil},
			{true, map[string]bool{"stake": false}},
			{true, map[string]bool{"fac": false, "ufoo": true}},
			{false, map[string]bool{"fac": true, "stake": true}},
			{false, map[string]bool{"cus": true, "ufoo": false}},
		}
		type coin struct {
			d string
			n int64
		}
		kinds := []coin{{"stake", 60}, {"stake", 61}, {"ufoo", 1}, {"fac", 50}, {"fac", 51}, {"cus", 0}, {"cus", 20}, {"unr", 1}, {"never", 1}, {"evm/" + strings.Repeat("ab", 20), 5}, {"evm/zz", 1}, {"ufoo", -1}}
		tos := []struct {
			s string
			a common.Address
		}{{acc(u2).String(), u2}, {sendKey.Acc().String(), sendKey.Addr}, {acc(longA).String(), longA}, {acc(modF).String(), modF}, {acc(modT).String(), modT}, {acc(con).String(), con}}
		type item struct {
			cfg, to int
			seq     []int
		}
		mkCoins := func(l *sendLab, seq []int) sdk.Coins {
			var cs sdk.Coins
			for _, k := range seq {
				d := kinds[k].d
				if t := l.m.byName(d); t != nil {
					d = t.denom
				}
				cs = append(cs, sdk.Coin{Denom: d, Amount: math.NewInt(kinds[k].n)})
			}
			return cs
		}
		Parallel(c, 0, func(int) *sendLab { return newSendLab(c) }, func(yield func(item) bool) {
			// all subsets up to a size in canonical order, and every order of the short ones
			for cfg := range cfgs {
				for to := range tos {
					if to > 2 && cfg > 1 && !c.Thorough() {
						continue
					}
					max := 2
					if to == 0 || c.Thorough() {
						max = 3
					}
					if !Sequences(len(kinds), 0, max, func(seq []int) bool {
						// in canonical order, or as given for at most two coins towards the plain recipient
						sorted := true
						for i := 1; i < len(seq); i++ {
							if seq[i-1] >= seq[i] {
								sorted = false
							}
						}
						if !sorted && (len(seq) > 2 || to != 0 || cfg > 1) {
							return true
						}
						return yield(item{cfg, to, append([]int{}, seq...)})
					}) {
						return
					}
				}
			}
		}, func(l *sendLab, it item) {
			run := func(l *sendLab, sorted bool) string {
				cs := mkCoins(l, it.seq)
				if sorted {
					cs = cs.Sort()
				}
				return l.judge(cfgs[it.cfg], tos[it.to].s, tos[it.to].a, cs)
			}
			for _, sorted := range []bool{true, false} {
				name := fmt.Sprintf("%s to %s %s sorted=%v", cfgs[it.cfg], nm(tos[it.to].a), coinsString(mkCoins(l, it.seq), l.m), sorted)
				c.Exec(name)
				c.Trans(1)
				c.State(name)
				if d := run(l, sorted); d != "" {
					c.Violate("send", name+" => "+d, name, func() string { return run(newSendLab(c), sorted) })
				} else {
					c.Validated(1)
				}
				if len(it.seq) < 2 {
					break
				}
			}
		})

		// histories of settings: only the authority's, only the named denominations
		l := newSendLab(c)
		bk := l.w.App.BankKeeper
		denoms := []string{"stake", "ufoo", l.m.toks[2].denom, "other"}
		type set struct {
			who    string
			en     []banktypes.SendEnabled
			def    []string
			params *banktypes.Params
		}
		tr := func(ds ...string) (o []banktypes.SendEnabled) {
			for _, d := range ds {
				o = append(o, banktypes.SendEnabled{Denom: strings.TrimPrefix(d, "!"), Enabled: !strings.HasPrefix(d, "!")})
			}
			return
		}
		pt, pf := banktypes.NewParams(true), banktypes.NewParams(false)
		pl := banktypes.Params{DefaultSendEnabled: false, SendEnabled: []*banktypes.SendEnabled{{Denom: "ufoo", Enabled: true}}}
		steps := []set{
			{"", tr("!stake"), nil, nil}, {"", tr("stake", "!ufoo"), nil, nil}, {"", tr("!" + denoms[2]), nil, nil},
			{"", nil, []string{"stake"}, nil}, {"", nil, []string{"ufoo", "other"}, nil}, {"", tr("!stake"), []string{"stake", denoms[2]}, nil},
			{"x", tr("!stake"), nil, nil}, {"x", nil, []string{"stake"}, nil}, {"", tr("stake", "!stake"), nil, nil}, {"", tr("!stake", "!bad denom"), nil, nil}, {"", tr("!ufoo"), []string{"1"}, nil},
			{"", nil, nil, &pf}, {"", nil, nil, &pt}, {"x", nil, nil, &pf}, {"", nil, nil, &pl},
		}
		play := func(seq []int) string {
			l.restore()
			ctx := l.w.Ctx()
			def, en := true, map[string]bool{}
			for i, x := range seq {
				s := steps[x]
				who := bk.GetAuthority()
				if s.who != "" {
					who = acc(u1).String()
				}
				ok := s.who == ""
				var err error
				cc, commit := ctx.CacheContext()
				if s.params != nil {
					// the old way of listing denominations is refused
					ok = ok && len(s.params.SendEnabled) == 0
					if ok {
						def = s.params.DefaultSendEnabled
					}
					err = l.msg(cc, &banktypes.MsgUpdateParams{Authority: who, Params: *s.params})
				} else {
					seen := map[string]bool{}
					var e []*banktypes.SendEnabled
					for j := range s.en {
						if seen[s.en[j].Denom] || sdk.ValidateDenom(s.en[j].Denom) != nil {
							ok = false
						}
						seen[s.en[j].Denom] = true
						e = append(e, &s.en[j])
					}
					for _, d := range s.def {
						if sdk.ValidateDenom(d) != nil {
							ok = false
						}
					}
					if ok {
						for _, x := range e {
							en[x.Denom] = x.Enabled
						}
						for _, d := range s.def {
							delete(en, d)
						}
					}
					err = l.msg(cc, &banktypes.MsgSetSendEnabled{Authority: who, SendEnabled: e, UseDefaultFor: s.def})
				}
				if err == nil {
					commit()
				}
				if (err == nil) != ok {
					return fmt.Sprintf("step %d: succeeds=%v (%v), expected %v", i, err == nil, err, ok)
				}
			}
			for _, d := range append(denoms, "never") {
				want, own := en[d]
				if !own {
					want = def
				}
				if bk.IsSendEnabledDenom(ctx, d) != want {
					return fmt.Sprintf("%s is enabled=%v, expected %v", d, !want, want)
				}
				r, err := bk.SendEnabled(ctx, &banktypes.QuerySendEnabledRequest{Denoms: []string{d}})
				if err != nil || (len(r.SendEnabled) == 1) != own || own && (r.SendEnabled[0].Enabled != want || r.SendEnabled[0].Denom != d) {
					return fmt.Sprintf("setting of %s is %v (%v)", d, r, err)
				}
			}
			r, err := bk.SendEnabled(ctx, &banktypes.QuerySendEnabledRequest{})
			if err != nil || len(r.SendEnabled) != len(en) {
				return fmt.Sprintf("settings are %v (%v), expected %v", r, err, en)
			}
			for _, e := range r.SendEnabled {
				if v, ok := en[e.Denom]; !ok || v != e.Enabled {
					return fmt.Sprintf("settings are %v, expected %v", r, en)
				}
			}
			// a real send judges by them
			for _, d := range denoms[:3] {
				want, own := en[d]
				if !own {
					want = def
				}
				cc := Branch(ctx)
				err := l.msg(cc, &banktypes.MsgSend{FromAddress: l.key.Acc().String(), ToAddress: acc(u2).String(), Amount: sdk.NewCoins(sdk.NewInt64Coin(d, 1))})
				if (err == nil) != want {
					return fmt.Sprintf("sending %s succeeds=%v (%v), expected %v", d, err == nil, err, want)
				}
			}
			return ""
		}
		Sequences(len(steps), 0, Pick(c, 2, 3), func(seq []int) bool {
			s := fmt.Sprint("settings", seq)
			c.Exec(s)
			c.Trans(len(seq))
			c.State(s)
			q := append([]int{}, seq...)
			if d := play(q); d != "" {
				c.Violate("settings", s+" => "+d, q, func() string { return play(q) })
			} else {
				c.Validated(1)
			}
			return !c.Expired()
		})
		_ = big.NewInt
	})
}
