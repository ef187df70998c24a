package cfg

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"cosmossdk.io/math"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	consensustypes "github.com/cosmos/cosmos-sdk/x/consensus/types"
	crisistypes "github.com/cosmos/cosmos-sdk/x/crisis/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	pfmtypes "github.com/cosmos/ibc-apps/middleware/packet-forward-middleware/v8/packetforward/types"
	icactypes "github.com/cosmos/ibc-go/v8/modules/apps/27-interchain-accounts/controller/types"
	icahtypes "github.com/cosmos/ibc-go/v8/modules/apps/27-interchain-accounts/host/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	conntypes "github.com/cosmos/ibc-go/v8/modules/core/03-connection/types"
	chantypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/holiman/uint256"
	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"
	auctiontypes "github.com/skip-mev/block-sdk/v2/x/auction/types"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"
	ibanktypes "github.com/initia-labs/initia/x/bank/types"
	hooktypes "github.com/initia-labs/initia/x/ibc-hooks/types"
	nfttypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"

	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// change is one field's new value.
type change struct {
	name string
	bad  bool // must be refused; every other change must be accepted
	grey bool // may be refused; when accepted, executions must work
	set  func(p *evmtypes.Params)
}

func (l *lab) changes() [][]change {
	pub := func(name string, bad bool, v ...string) change {
		return change{"publishers " + name, bad, false, func(p *evmtypes.Params) { p.AllowedPublishers = v }}
	}
	tok := func(name string, bad bool, v ...string) change {
		return change{"custom tokens " + name, bad, false, func(p *evmtypes.Params) { p.AllowedCustomERC20s = v }}
	}
	a, b := alice.Acc().String(), bob.Acc().String()
	long := sdk.AccAddress(append(make([]byte, 12), bob.Addr.Bytes()...)).String()
	other, _ := sdk.Bech32ifyAddressBytes("other", alice.Acc())
	val := sdk.ValAddress(alice.Acc()).String()
	pubs := []change{
		pub("none", false), pub("alice", false, a), pub("alice and bob", false, a, b), pub("alice in capitals", false, strings.ToUpper(a)), pub("a longer address", false, long),
		pub("junk", true, "junk"), pub("an empty string", true, ""), pub("alice, then junk", true, a, "junk"), pub("another prefix", true, other), pub("a validator prefix", true, val),
		pub("a wrong checksum", true, a[:len(a)-1]+map[bool]string{true: "q", false: "p"}[a[len(a)-1] != 'q']), pub("mixed case", true, strings.ToUpper(a[:10])+a[10:]),
	}
	toks := []change{
		tok("none", false), tok("hex", false, sink.Hex()), tok("lower hex", false, strings.ToLower(sink.Hex())), tok("bech32", false, sdk.AccAddress(sink.Bytes()).String()), tok("two", false, sink.Hex(), proxy.Hex()),
		tok("junk", true, "junk"), tok("an empty string", true, ""), tok("hex, then junk", true, sink.Hex(), "0xzz"), tok("short hex", true, "0x1234"), tok("another prefix", true, other),
	}
	dec := func(s string) math.LegacyDec { return math.LegacyMustNewDecFromStr(s) }
	ratio := func(s string, bad bool) change {
		return change{"ratio " + s, bad, false, func(p *evmtypes.Params) { p.GasRefundRatio = dec(s) }}
	}
	ratios := []change{ratio("0", false), ratio("0.000000000000000001", false), ratio("0.5", false), ratio("1", false), ratio("1.000000000000000001", true), ratio("2", true), ratio("-0.000000000000000001", true), ratio("-1", true),
		{"ratio missing", true, false, func(p *evmtypes.Params) { p.GasRefundRatio = math.LegacyDec{} }}}
	ret := func(n uint64, bad bool) change {
		return change{fmt.Sprintf("retention %d", n), bad, false, func(p *evmtypes.Params) { p.NumRetainBlockHashes = n }}
	}
	rets := []change{ret(0, false), ret(1, true), ret(255, true), ret(256, false), ret(257, false), ret(100_000, false), ret(1<<63, false), ret(^uint64(0), false)}
	eips := []change{{"no rules", false, false, func(p *evmtypes.Params) { p.ExtraEIPs = nil }}}
	for _, n := range []int64{1153, 1344, 1884, 2200, 2929, 3198, 3529, 3855, 3860, 4762, 5656, 6780} {
		if vm.ValidEip(int(n)) {
			eips = append(eips, change{fmt.Sprintf("rule %d", n), false, n == 4762, func(p *evmtypes.Params) { p.ExtraEIPs = []int64{n} }})
		}
	}
	for _, n := range [][]int64{{0}, {-1}, {1}, {99999}, {3855, 99999}, {1 << 62}} {
		eips = append(eips, change{fmt.Sprintf("unknown rule %v", n), true, false, func(p *evmtypes.Params) { p.ExtraEIPs = n }})
	}
	eips = append(eips, change{"two rules", false, false, func(p *evmtypes.Params) { p.ExtraEIPs = []int64{3855, 5656} }}, change{"a rule twice", false, false, func(p *evmtypes.Params) { p.ExtraEIPs = []int64{3855, 3855} }})
	var fees []change
	var names []string
	for n := range l.toks {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := l.toks[n]
		fees = append(fees, change{"fee " + n, l.bad[n], l.grey[n], func(p *evmtypes.Params) { p.FeeDenom = d }})
	}
	allow := []change{{"custom tokens allowed", false, false, func(p *evmtypes.Params) { p.AllowCustomERC20 = true }}, {"custom tokens not allowed", false, false, func(p *evmtypes.Params) { p.AllowCustomERC20 = false }}}
	return [][]change{pubs, toks, ratios, rets, eips, fees, allow}
}

// works checks that executions run under the settings, in the fee token they name.
func (l *lab) works(ctx sdk.Context, p evmtypes.Params) (d string) {
	if x := Try(func() { d = l.worksIn(ctx, p) }); x != "" {
		return "an execution panicked: " + x
	}
	return d
}

func (l *lab) worksIn(ctx sdk.Context, p evmtypes.Params) string {
	ctx = Fresh(Branch(ctx), 1<<50)
	d := p.FeeDenom
	ba, bs := l.w.Bal(ctx, alice.Addr, d), l.w.Bal(ctx, sink, d)
	if _, _, err := l.w.K.EVMCall(Fresh(ctx, 30_000_000), alice.Addr, sink, nil, uint256.NewInt(5), nil); err != nil {
		return fmt.Sprintf("a payment of five in the new fee token fails: %v", err)
	}
	if x := new(big.Int).Sub(ba, l.w.Bal(ctx, alice.Addr, d)); x.Int64() != 5 {
		return fmt.Sprintf("a payment of five in the new fee token took %s", x)
	}
	if x := new(big.Int).Sub(l.w.Bal(ctx, sink, d), bs); x.Int64() != 5 {
		return fmt.Sprintf("a payment of five in the new fee token gave %s", x)
	}
	_, addr, _, err := l.w.K.EVMCreate(Fresh(ctx, 30_000_000), bob.Addr, initCode, nil, nil)
	if err != nil {
		return fmt.Sprintf("no contract can be created: %v", err)
	}
	for range 2 {
		if _, _, err := l.w.K.EVMCall(Fresh(ctx, 30_000_000), bob.Addr, addr, nil, nil, nil); err != nil {
			return fmt.Sprintf("no contract can be called: %v", err)
		}
	}
	// a contract that looks at balances
	look := Addr("cfg-look")
	l.w.SetCode(ctx, look, NewAsm().PushAddr(alice.Addr).Op(0x31).Push(0).Op(0x52).Push(32).Push(0).Op(0xf3).Bytes())
	ret, _, err := l.w.K.EVMCall(Fresh(ctx, 30_000_000), bob.Addr, look, nil, nil, nil)
	if err != nil || new(big.Int).SetBytes(ret).Cmp(l.w.Bal(ctx, alice.Addr, d)) != 0 {
		return fmt.Sprintf("a contract sees the balance %x (%v)", ret, err)
	}
	if p.FeeDenom == "" {
		return "the fee token has no name"
	}
	return ""
}

// TestC01 decides who can change settings, and to what.
func TestC01(t *testing.T) {
	Run("C01", "bounded", func(c *Check) {
		gov := authtypes.NewModuleAddress(govtypes.ModuleName).String()
		// ---- the settings of the EVM
		type item struct{ seq []change }
		var mk = func() *lab { l := newLab(); l.tokens(); return l }
		apply := func(l *lab, ctx sdk.Context, ch ...change) (evmtypes.Params, error) {
			p := l.params(ctx)
			for _, x := range ch {
				x.set(&p)
			}
			_, err := l.handle(ctx, &evmtypes.MsgUpdateParams{Authority: l.auth, Params: p})
			return p, err
		}
		same := func(a, b evmtypes.Params) bool {
			x, e1 := a.Marshal()
			y, e2 := b.Marshal()
			return e1 == nil && e2 == nil && string(x) == string(y)
		}
		judge := func(l *lab, ctx sdk.Context, ch ...change) string {
			old, before := l.params(ctx), l.w.DigestStores(ctx)
			p, err := apply(l, ctx, ch...)
			bad, grey := "", false
			for _, x := range ch {
				grey = grey || x.grey
				if x.bad {
					bad = x.name
				}
			}
			c.Outcome(fmt.Sprintf("bad=%v accepted=%v", bad != "", err == nil))
			if err != nil {
				if bad == "" && !grey {
					return fmt.Sprintf("the valid update (%s) was refused: %v", names(ch), err)
				}
				if !same(old, l.params(ctx)) || before != l.w.DigestStores(ctx) {
					return fmt.Sprintf("the refused update (%s) left something behind", names(ch))
				}
				return ""
			}
			if bad != "" {
				return fmt.Sprintf("the update (%s) was accepted; then: %s", names(ch), l.works(ctx, p))
			}
			if !same(p, l.params(ctx)) {
				return fmt.Sprintf("the update (%s) was stored as %v", names(ch), l.params(ctx))
			}
			got, err := l.w.K.Params.Get(ctx)
			Must(err)
			if got.FeeDenom != p.FeeDenom {
				return "another fee token"
			}
			if d := l.works(ctx, p); d != "" {
				return fmt.Sprintf("after the update (%s): %s", names(ch), d)
			}
			return ""
		}
		l0 := mk()
		fields := l0.changes()
		nf := len(fields)
		type path struct{ f, i, g, j int } // the i-th change of field f, then/with the j-th of field g
		run := func(l *lab, x path, both bool) string {
			ctx := Branch(l.base)
			fs := l.changes()
			a := fs[x.f][x.i]
			if x.g < 0 {
				return judge(l, ctx, a)
			}
			b := fs[x.g][x.j]
			if both {
				return judge(l, ctx, a, b)
			}
			if d := judge(l, ctx, a); d != "" {
				return d
			}
			return judge(l, ctx, b)
		}
		type job struct {
			p    path
			both bool
		}
		pool := []*lab{l0}
		Parallel(c, 0, func(i int) *lab {
			if i == 0 {
				return pool[0]
			}
			return mk()
		}, func(yield func(job) bool) {
			for f := 0; f < nf; f++ {
				for i := range fields[f] {
					if !yield(job{path{f, i, -1, 0}, false}) {
						return
					}
				}
			}
			for f := 0; f < nf; f++ {
				for g := 0; g < nf; g++ {
					for i := range fields[f] {
						for j := range fields[g] {
							if f == g && i == j && !c.Thorough() {
								continue
							}
							if f < g && !yield(job{path{f, i, g, j}, true}) {
								return
							}
							// one update after the other
							if (c.Thorough() || f == g || f == 5) && !yield(job{path{f, i, g, j}, false}) {
								return
							}
						}
					}
				}
			}
		}, func(l *lab, j job) {
			if c.Expired() {
				return
			}
			s := fields[j.p.f][j.p.i].name
			if j.p.g >= 0 {
				s += map[bool]string{true: " with ", false: " then "}[j.both] + fields[j.p.g][j.p.j].name
			}
			c.Exec(s)
			c.State(s)
			c.Trans(1)
			c.Sample(s)
			if d := run(l, j.p, j.both); d != "" {
				sig := "update: " + d
				if i := strings.IndexAny(d, "("); i > 0 {
					if k := strings.Index(d, ")"); k > i {
						sig = d[:k+1]
					}
				}
				c.Violate(sig, s+" => "+d, s, func() string { return run(l, j.p, j.both) })
			} else {
				c.Validated(1)
			}
		})

		// ---- who may: every message that needs the authority, from everybody else
		l := l0
		w := l.w
		wl := func(auth string) map[string]sdk.Msg {
			op, err := w.App.OPChildKeeper.Params.Get(l.base)
			Must(err)
			op.MaxValidators = 77
			ep := l.params(l.base)
			ep.NumRetainBlockHashes = 999
			cp, err := w.App.ConsensusParamsKeeper.ParamsStore.Get(l.base)
			Must(err)
			blk := *cp.Block
			blk.MaxGas = 77_000_000
			ap := authtypes.DefaultParams()
			ap.MaxMemoCharacters = 77
			auc := auctiontypes.DefaultParams()
			auc.MaxBundleSize = 7
			conn := conntypes.DefaultParams()
			conn.MaxExpectedTimePerBlock = 77
			ch := chantypes.DefaultParams()
			ch.UpgradeTimeout.Timestamp = 77
			return map[string]sdk.Msg{
				"evm":          &evmtypes.MsgUpdateParams{Authority: auth, Params: ep},
				"bank":         &banktypes.MsgUpdateParams{Authority: auth, Params: banktypes.Params{DefaultSendEnabled: false}},
				"send enabled": &banktypes.MsgSetSendEnabled{Authority: auth, SendEnabled: []*banktypes.SendEnabled{{Denom: FeeDenom, Enabled: false}}},
				"metadata":     &ibanktypes.MsgSetDenomMetadata{Authority: auth, Metadata: banktypes.Metadata{Base: FeeDenom, Display: FeeDenom, Name: "s", Symbol: "S", DenomUnits: []*banktypes.DenomUnit{{Denom: FeeDenom}}}},
				"auth":         &authtypes.MsgUpdateParams{Authority: auth, Params: ap},
				"consensus":    &consensustypes.MsgUpdateParams{Authority: auth, Block: &blk, Evidence: cp.Evidence, Validator: cp.Validator, Abci: cp.Abci},
				"crisis":       &crisistypes.MsgUpdateParams{Authority: auth, ConstantFee: sdk.NewInt64Coin(FeeDenom, 77)},
				"upgrade":      &upgradetypes.MsgSoftwareUpgrade{Authority: auth, Plan: upgradetypes.Plan{Name: "x", Height: 1000}},
				"no upgrade":   &upgradetypes.MsgCancelUpgrade{Authority: auth},
				"transfer":     &transfertypes.MsgUpdateParams{Signer: auth, Params: transfertypes.NewParams(false, true)},
				"nft transfer": &nfttypes.MsgUpdateParams{Authority: auth, Params: nfttypes.NewParams(false, true)},
				"ica control":  &icactypes.MsgUpdateParams{Signer: auth, Params: icactypes.NewParams(false)},
				"ica host":     &icahtypes.MsgUpdateParams{Signer: auth, Params: icahtypes.NewParams(false, []string{"/x"})},
				"client":       &clienttypes.MsgUpdateParams{Signer: auth, Params: clienttypes.NewParams("07-tendermint")},
				"connection":   &conntypes.MsgUpdateParams{Signer: auth, Params: conn},
				"channel":      &chantypes.MsgUpdateParams{Authority: auth, Params: ch},
				"hooks":        &hooktypes.MsgUpdateParams{Authority: auth, Params: hooktypes.NewParams(true)},
				"hook list":    &hooktypes.MsgUpdateACL{Authority: auth, Address: sdk.AccAddress(sink.Bytes()).String(), Allowed: true},
				"opchild":      &opchildtypes.MsgUpdateParams{Authority: auth, Params: &op},
				"fee pool":     &opchildtypes.MsgSpendFeePool{Authority: auth, Recipient: bob.Acc().String(), Amount: coins(FeeDenom, 5)},
				"validator":    &opchildtypes.MsgRemoveValidator{Authority: auth, ValidatorAddress: sdk.ValAddress(w.Admin).String()},
				"forwarding":   &pfmtypes.MsgUpdateParams{Authority: auth, Params: pfmtypes.NewParams(math.LegacyNewDecWithPrec(1, 2))},
				"auction":      &auctiontypes.MsgUpdateParams{Authority: auth, Params: auc},
				"oracle pair":  &oracletypes.MsgAddCurrencyPairs{Authority: auth, CurrencyPairs: []connecttypes.CurrencyPair{{Base: "A", Quote: "B"}}},
			}
		}
		l.w.Fund(l.base, common.BytesToAddress(authtypes.NewModuleAddress(authtypes.FeeCollectorName)), FeeDenom, 1000)
		var msgNames []string
		for n := range wl(l.auth) {
			msgNames = append(msgNames, n)
		}
		sort.Strings(msgNames)
		var accepted, refused []string
		for _, n := range msgNames {
			ctx := Branch(l.base)
			before := w.DigestStores(ctx)
			_, err := l.handle(ctx, wl(l.auth)[n])
			if err == nil && before == w.DigestStores(ctx) && n != "no upgrade" {
				c.Violate("no-effect "+n, "the authority's "+n+" message succeeded without any effect", n, nil)
			}
			if err != nil {
				refused = append(refused, n+": "+err.Error())
			} else {
				accepted = append(accepted, n)
			}
		}
		c.Note("messages the authority can run", accepted)
		c.Note("messages the authority cannot run", refused)
		others := map[string]string{"alice": alice.Acc().String(), "the admin": w.Admin.String(), "the gov module": gov, "the evm module": authtypes.NewModuleAddress(evmtypes.ModuleName).String(),
			"the chain's EVM address": sdk.AccAddress(evmtypes.StdAddress.Bytes()).String(), "nobody": "", "junk": "junk", "a contract": sdk.AccAddress(proxy.Bytes()).String(), "the upgrade module": authtypes.NewModuleAddress(upgradetypes.ModuleName).String(),
			"a longer address": sdk.AccAddress(append(make([]byte, 12), authtypes.NewModuleAddress(opchildtypes.ModuleName)...)).String(), "the hex form": common.BytesToAddress(authtypes.NewModuleAddress(opchildtypes.ModuleName)).Hex()}
		var who []string
		for n := range others {
			who = append(who, n)
		}
		sort.Strings(who)
		fail := func(sig, d string) { c.Violate(sig, d, d, nil) }
		for _, n := range msgNames {
			for _, o := range who {
				ctx := Branch(l.base)
				before := w.DigestStores(ctx)
				m := wl(others[o])[n]
				s := n + " by " + o
				c.Exec(s)
				c.Trans(1)
				if _, err := l.handle(ctx, m); err == nil {
					fail("unauthorised "+s, "the message "+s+" was accepted")
				} else if before != w.DigestStores(ctx) {
					fail("trace "+s, "the refused message "+s+" changed the state")
				}
				c.Validated(1)
			}
			// signed by somebody else, directly or through a contract's queue or the admin's door
			real := wl(l.auth)[n]
			routes := map[string]func(ctx sdk.Context) error{
				"signed by alice": func(ctx sdk.Context) (err error) {
					var d Delivered
					if p := Try(func() { d = w.DeliverOn(ctx, l.sign(ctx, alice, real)) }); p != "" {
						return fmt.Errorf("%s", p)
					}
					if d.Err != "" {
						return fmt.Errorf("%s", d.Err)
					}
					return nil
				},
				"queued by a contract": func(ctx sdk.Context) error {
					js, err := w.App.AppCodec().MarshalInterfaceJSON(real)
					Must(err)
					abi, err := i_cosmos.ICosmosMetaData.GetAbi()
					Must(err)
					in, err := abi.Pack("execute_cosmos", string(js))
					Must(err)
					_, _, err = w.K.EVMCall(Fresh(ctx, 30_000_000), bob.Addr, proxy, in, nil, nil)
					return err
				},
				"through the admin's door, by alice": func(ctx sdk.Context) error {
					m, err := opchildtypes.NewMsgExecuteMessages(alice.Acc().String(), []sdk.Msg{real})
					Must(err)
					_, err = l.handle(ctx, m)
					return err
				},
				"through the admin's door, with the admin's own name": func(ctx sdk.Context) error {
					m, err := opchildtypes.NewMsgExecuteMessages(w.Admin.String(), []sdk.Msg{wl(w.Admin.String())[n]})
					Must(err)
					_, err = l.handle(ctx, m)
					return err
				},
			}
			for _, rn := range []string{"signed by alice", "queued by a contract", "through the admin's door, by alice", "through the admin's door, with the admin's own name"} {
				ctx := Branch(l.base)
				old := w.DumpStore(ctx, evmtypes.StoreKey)
				p0 := l.params(ctx)
				s := n + " " + rn
				c.Exec(s)
				c.Trans(1)
				cc, write := ctx.CacheContext()
				use := ctx
				if rn != "signed by alice" {
					use = cc
				}
				if err := routes[rn](use); err == nil {
					write()
					fail("unauthorised "+s, "the message "+s+" was accepted")
				}
				_ = old
				if !same(p0, l.params(ctx)) {
					fail("trace "+s, "the refused message "+s+" changed the settings")
				}
				c.Validated(1)
			}
			// the admin's door is the authority's way in
			ctx := Branch(l.base)
			m, err := opchildtypes.NewMsgExecuteMessages(w.Admin.String(), []sdk.Msg{real})
			Must(err)
			_, err = l.handle(ctx, m)
			ok := false
			for _, a := range accepted {
				ok = ok || a == n
			}
			if ok != (err == nil) {
				fail("admin "+n, fmt.Sprintf("the message %s run by the admin for the authority: %v", n, err))
			}
			c.Exec(n + " by the admin")
		}
	})
}

func names(ch []change) string {
	var s []string
	for _, x := range ch {
		s = append(s, x.name)
	}
	return strings.Join(s, ", ")
}
