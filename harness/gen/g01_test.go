// Package gen explores exporting and importing the chain's state.
package gen

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"

	hookstypes "github.com/initia-labs/initia/x/ibc-hooks/types"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20_factory"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

var (
	u1, u2, u3 = Addr("gen-u1"), Addr("gen-u2"), Addr("gen-u3")
	never      = Addr("gen-never-seen")
	long       = sdk.AccAddress(append([]byte("a-long-addre"), Addr("gen-long").Bytes()...))
	store      = Addr("gen-store")
	asks       = Addr("gen-asks")
	odd        = Addr("gen-odd")
	registry   = common.HexToAddress("0xf2")
	maxU       = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	e20, eFac  *abi.ABI
)

func init() {
	e20, _ = initia_erc20.InitiaErc20MetaData.GetAbi()
	eFac, _ = erc20_factory.Erc20FactoryMetaData.GetAbi()
}

type op struct {
	name string
	do   func(l *lab, ctx sdk.Context) (string, error)
}

// lab is a chain to export from and an empty one to import into.
type lab struct {
	w, e     *World
	base     sdk.Context
	empty    sdk.Context
	fac      common.Address
	ft, cu   common.Address // tokens: the factory's, one of the chain's kind deployed by a user
	un, raw  common.Address // one that never registered, one that registers itself only
	nft      *evmkeeper.ERC721Keeper
	destroys common.Address
	ops      []op
}

func (l *lab) on(w *World) *lab {
	x := *l
	x.w = w
	x.nft = w.K.ERC721Keeper().(*evmkeeper.ERC721Keeper)
	return &x
}

func (l *lab) evm(ctx sdk.Context, from, to common.Address, in []byte) (string, error) {
	ret, logs, err := l.w.K.EVMCall(ctx, from, to, in, uint256.NewInt(0), nil)
	return fmt.Sprintf("%x %v", ret, logs), err
}

func (l *lab) tok(ctx sdk.Context, from, to common.Address, fn string, args ...any) (string, error) {
	in, err := e20.Pack(fn, args...)
	Must(err)
	return l.evm(ctx, from, to, in)
}

func (l *lab) create(ctx sdk.Context, from common.Address, code []byte) common.Address {
	_, a, _, err := l.w.K.EVMCreate(ctx, from, code, uint256.NewInt(0), nil)
	Must(err)
	return a
}

func (l *lab) msg(ctx sdk.Context, m sdk.Msg) (string, error) {
	r, err := l.w.App.MsgServiceRouter().Handler(m)(ctx, m)
	if err != nil {
		return "", err
	}
	return fmt.Sprintf("%x %s", r.Data, r.Log), nil
}

func done(err error) (string, error) { return "", err }

// deployer returns code that installs the runtime code.
func deployer(run []byte) []byte {
	n := len(run)
	return append([]byte{0x61, byte(n >> 8), byte(n), 0x60, 14, 0x60, 0, 0x39, 0x61, byte(n >> 8), byte(n), 0x60, 0, 0xf3}, run...)
}

func newLab() *lab {
	return newLabOn(func(w *World) sdk.Context { return Fresh(Branch(w.Base), 1<<50) })
}

func newLabOn(on func(*World) sdk.Context) *lab {
	l := &lab{w: NewWorld(WorldCfg{}), e: NewWorld(WorldCfg{Empty: true})}
	l.nft = l.w.K.ERC721Keeper().(*evmkeeper.ERC721Keeper)
	l.empty = l.e.App.BaseApp.NewUncachedContext(false, tmproto.Header{ChainID: ChainID, Height: 1, Time: GenesisTime})
	l.base = on(l.w)
	ctx := l.base
	var err error
	l.fac, err = l.w.K.GetERC20FactoryAddr(ctx)
	Must(err)
	for _, a := range []common.Address{u1, u2, u3} {
		l.w.EnsureAcc(ctx, a)
	}
	Must(l.w.K.ERC20Keeper().MintCoins(ctx, Acc(u1), Coins("100stake,50ufoo")))
	Must(l.w.K.ERC20Keeper().MintCoins(ctx, Acc(u2), Coins("7ufoo")))
	in, err := eFac.Pack("createERC20", "fac", "FAC", uint8(6))
	Must(err)
	ret, _, err := l.w.K.EVMCall(ctx, u1, l.fac, in, nil, nil)
	Must(err)
	l.ft = common.BytesToAddress(ret)
	args, err := e20.Pack("", "tok", "TOK", uint8(6))
	Must(err)
	l.cu = l.create(ctx, u1, append(common.FromHex(initia_erc20.InitiaErc20Bin), args...))
	l.un = l.create(ctx, u2, append(common.FromHex(erc20.Erc20Bin), args...))
	for _, t := range []common.Address{l.ft, l.cu} {
		_, err := l.tok(ctx, u1, t, "mint", u1, big.NewInt(40))
		Must(err)
	}
	_, err = l.tok(ctx, u2, l.un, "mint", u2, big.NewInt(11))
	Must(err)
	// slot n := word 1 of the input
	l.w.SetCode(ctx, store, []byte{0x60, 32, 0x35, 0x60, 0, 0x35, 0x55, 0x60, 0, 0x35, 0x54, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3})
	// returns the hash of block 1, the block, its base fee, its own balance and code size of the store
	l.w.SetCode(ctx, asks, NewAsm().Push(1).Op(0x40).Push(0).Op(0x52, 0x43).Push(32).Op(0x52, 0x48).Push(64).Op(0x52, 0x47).Push(96).Op(0x52).PushAddr(store).Op(0x3b).Push(128).Op(0x52).Push(160).Push(0).Op(0xf3).Bytes())
	l.destroys = l.create(ctx, u1, deployer(NewAsm().PushAddr(u2).Op(0xff).Bytes()))
	Must(l.nft.CreateOrUpdateClass(ctx, "ibc/AA", "uri:aa", "data"))
	Must(l.nft.Mints(ctx, Acc(u1), "ibc/AA", []string{"t1", "t2"}, []string{"u1", "u2"}, []string{"", ""}))
	l.ops = menu()
	return l
}

func params(l *lab, ctx sdk.Context, f func(p *evmtypes.Params)) (string, error) {
	p, err := l.w.K.Params.Get(ctx)
	Must(err)
	f(&p)
	return l.msg(ctx, &evmtypes.MsgUpdateParams{Authority: l.w.App.BankKeeper.GetAuthority(), Params: p})
}

func menu() []op {
	var o []op
	add := func(name string, do func(l *lab, ctx sdk.Context) (string, error)) { o = append(o, op{name, do}) }
	mint := func(to common.Address, cs string) {
		add("mint "+cs, func(l *lab, ctx sdk.Context) (string, error) {
			return done(l.w.K.ERC20Keeper().MintCoins(ctx, Acc(to), Coins(cs)))
		})
	}
	send := func(name string, from, to sdk.AccAddress, cs func(l *lab) string) {
		add(name, func(l *lab, ctx sdk.Context) (string, error) {
			return l.msg(ctx, &banktypes.MsgSend{FromAddress: from.String(), ToAddress: to.String(), Amount: Coins(cs(l))})
		})
	}
	c := func(s string) func(*lab) string { return func(*lab) string { return s } }
	tok := func(name string, from common.Address, t func(l *lab) common.Address, fn string, args ...any) {
		add(name, func(l *lab, ctx sdk.Context) (string, error) { return l.tok(ctx, from, t(l), fn, args...) })
	}
	ft := func(l *lab) common.Address { return l.ft }
	cu := func(l *lab) common.Address { return l.cu }
	un := func(l *lab) common.Address { return l.un }
	n := big.NewInt
	// chain tokens
	mint(u1, "3ufoo")
	mint(u2, "9ibc/1234")
	mint(u2, "4l2/abcd")
	send("send 5ufoo", Acc(u1), Acc(u2), c("5ufoo"))
	send("send all stake", Acc(u1), Acc(u2), c("100stake"))
	send("send to a new account", Acc(u1), Acc(never), c("1stake"))
	send("send to a long address", Acc(u1), long, c("2ufoo,2stake"))
	send("send back from the long address", long, Acc(u1), c("2ufoo"))
	add("burn all ufoo", func(l *lab, ctx sdk.Context) (string, error) {
		for _, u := range []common.Address{u1, u2} {
			if b := l.w.Bank.GetBalance(ctx, Acc(u), "ufoo"); b.IsPositive() {
				if err := l.w.Bank.SendCoinsFromAccountToModule(ctx, Acc(u), transfertypes.ModuleName, sdk.NewCoins(b)); err != nil {
					return "", err
				}
				if err := l.w.Bank.BurnCoins(ctx, transfertypes.ModuleName, sdk.NewCoins(b)); err != nil {
					return "", err
				}
			}
		}
		return "", nil
	})
	// tokens of users
	tok("mint own token", u1, ft, "mint", u2, n(6))
	tok("own token to one never seen", u1, ft, "transfer", never, n(6))
	tok("own token all away", u1, ft, "transfer", u2, n(40))
	tok("own token burned", u1, ft, "burn", n(40))
	tok("own token allowed", u1, cu, "approve", u2, n(9))
	tok("own token taken", u2, cu, "transferFrom", u1, u3, n(4))
	tok("own token to a contract", u1, cu, "transfer", store, n(4))
	tok("unregistered moves", u2, un, "transfer", u1, n(4))
	send("send own token", Acc(u1), Acc(u2), func(l *lab) string { return "3evm/" + l.ft.Hex()[2:] })
	add("new token", func(l *lab, ctx sdk.Context) (string, error) {
		in, err := eFac.Pack("createERC20", "new", "NEW", uint8(0))
		Must(err)
		return l.evm(ctx, u2, l.fac, in)
	})
	odd1 := func(name string, code []byte) {
		add("a token that "+name, func(l *lab, ctx sdk.Context) (string, error) {
			reg := crypto.Keccak256([]byte("register_erc20()"))[:4]
			regs := crypto.Keccak256([]byte("register_erc20_store(address)"))[:4]
			if _, err := l.evm(ctx, odd, registry, reg); err != nil {
				return "", err
			}
			for _, u := range []common.Address{u1, u2} {
				if _, err := l.evm(ctx, odd, registry, append(append([]byte{}, regs...), common.LeftPadBytes(u.Bytes(), 32)...)); err != nil {
					return "", err
				}
			}
			l.w.SetCode(ctx, odd, code)
			return "", nil
		})
	}
	odd1("reverts", []byte{0x5f, 0x5f, 0xfd})
	odd1("never returns", []byte{0x5b, 0x5f, 0x56})
	odd1("has all there is", NewAsm().PushB(maxU.Bytes()).Push(0).Op(0x52).Push(32).Push(0).Op(0xf3).Bytes())
	odd1("counts the gas", []byte{0x5a, 0x5f, 0x52, 0x60, 32, 0x5f, 0xf3})
	odd1("has no supply", NewAsm().Push(5).Push(0).Op(0x52).Push(0).Op(0x35).Push(224).Op(0x1c).PushB(common.FromHex("18160ddd")).Op(0x14).PushLabel("z").Op(0x57).Push(32).Push(0).Op(0xf3).Label("z").Push(0).Push(0).Op(0x52).Push(32).Push(0).Op(0xf3).Bytes())
	// contracts
	word := func(a, b uint64) []byte {
		return append(common.LeftPadBytes(new(big.Int).SetUint64(a).Bytes(), 32), common.LeftPadBytes(new(big.Int).SetUint64(b).Bytes(), 32)...)
	}
	for _, x := range [][2]uint64{{0, 5}, {0, 0}, {1 << 62, 1}} {
		add(fmt.Sprintf("slot %d = %d", x[0], x[1]), func(l *lab, ctx sdk.Context) (string, error) {
			return l.evm(ctx, u2, store, word(x[0], x[1]))
		})
	}
	add("create", func(l *lab, ctx sdk.Context) (string, error) {
		_, a, _, err := l.w.K.EVMCreate(ctx, u3, deployer([]byte{0}), uint256.NewInt(0), nil)
		return a.Hex(), err
	})
	add("create at a salt", func(l *lab, ctx sdk.Context) (string, error) {
		_, a, _, err := l.w.K.EVMCreate2(ctx, u3, append([]byte{0x60, 9, 0x60, 3, 0x55}, 0x00), uint256.NewInt(0), 7, nil)
		return a.Hex(), err
	})
	add("destroys itself", func(l *lab, ctx sdk.Context) (string, error) { return l.evm(ctx, u3, l.destroys, nil) })
	add("made and destroyed", func(l *lab, ctx sdk.Context) (string, error) {
		_, a, _, err := l.w.K.EVMCreate(ctx, u2, NewAsm().PushAddr(u1).Op(0xff).Bytes(), uint256.NewInt(0), nil)
		return a.Hex(), err
	})
	add("ask", func(l *lab, ctx sdk.Context) (string, error) { return l.evm(ctx, u3, asks, nil) })
	add("block hash", func(l *lab, ctx sdk.Context) (string, error) {
		return done(l.w.K.TrackBlockHash(ctx.WithBlockHeight(2), 1, common.HexToHash("0x77")))
	})
	// NFTs
	add("class B", func(l *lab, ctx sdk.Context) (string, error) {
		return done(l.nft.CreateOrUpdateClass(ctx, "ibc/BB", "uri:bb", "more"))
	})
	add("class A changes", func(l *lab, ctx sdk.Context) (string, error) {
		return done(l.nft.CreateOrUpdateClass(ctx, "ibc/AA", "", "more"))
	})
	add("mint A", func(l *lab, ctx sdk.Context) (string, error) {
		return done(l.nft.Mints(ctx, Acc(u2), "ibc/AA", []string{"t3"}, []string{"u3"}, []string{"d"}))
	})
	add("move A", func(l *lab, ctx sdk.Context) (string, error) {
		return done(l.nft.Transfers(ctx, Acc(u1), Acc(u2), "ibc/AA", []string{"t1"}))
	})
	add("burn A", func(l *lab, ctx sdk.Context) (string, error) {
		return done(l.nft.Burns(ctx, Acc(u1), "ibc/AA", []string{"t1", "t2"}))
	})
	// settings
	add("fees in ufoo", func(l *lab, ctx sdk.Context) (string, error) {
		return params(l, ctx, func(p *evmtypes.Params) { p.FeeDenom = "ufoo" })
	})
	add("settings", func(l *lab, ctx sdk.Context) (string, error) {
		return params(l, ctx, func(p *evmtypes.Params) {
			p.AllowedPublishers = []string{Acc(u1).String()}
			p.AllowCustomERC20 = false
			p.AllowedCustomERC20s = []string{l.cu.Hex()}
			p.ExtraEIPs = []int64{1344}
			p.GasRefundRatio = math.LegacyNewDecWithPrec(1, 1)
			p.NumRetainBlockHashes = 3
		})
	})
	add("sending stake off", func(l *lab, ctx sdk.Context) (string, error) {
		return l.msg(ctx, &banktypes.MsgSetSendEnabled{Authority: l.w.App.BankKeeper.GetAuthority(), SendEnabled: []*banktypes.SendEnabled{{Denom: "stake", Enabled: false}}})
	})
	add("sending off", func(l *lab, ctx sdk.Context) (string, error) {
		return l.msg(ctx, &banktypes.MsgUpdateParams{Authority: l.w.App.BankKeeper.GetAuthority(), Params: banktypes.Params{DefaultSendEnabled: false}})
	})
	add("denom metadata", func(l *lab, ctx sdk.Context) (string, error) {
		l.w.Bank.SetDenomMetaData(ctx, banktypes.Metadata{Base: "ufoo", Display: "foo", Name: "Foo", Symbol: "FOO", DenomUnits: []*banktypes.DenomUnit{{Denom: "ufoo"}, {Denom: "foo", Exponent: 6}}})
		return "", nil
	})
	add("prices", func(l *lab, ctx sdk.Context) (string, error) {
		p, err := l.w.App.OPChildKeeper.GetParams(ctx)
		Must(err)
		p.MinGasPrices = sdk.NewDecCoins(sdk.NewDecCoinFromDec("stake", math.LegacyNewDecWithPrec(15, 2)))
		return done(l.w.App.OPChildKeeper.SetParams(ctx, p))
	})
	add("hooks allowed", func(l *lab, ctx sdk.Context) (string, error) {
		return l.msg(ctx, &hookstypes.MsgUpdateACL{Authority: l.w.App.BankKeeper.GetAuthority(), Address: Acc(store).String(), Allowed: true})
	})
	add("module accounts", func(l *lab, ctx sdk.Context) (string, error) {
		for _, m := range []string{transfertypes.ModuleName, authtypes.FeeCollectorName} {
			l.w.App.AccountKeeper.GetModuleAccount(ctx, m)
		}
		return done(l.w.Bank.SendCoinsFromAccountToModule(ctx, Acc(u2), authtypes.FeeCollectorName, Coins("2ufoo")))
	})
	return o
}

func (l *lab) step(ctx sdk.Context, o op) (string, error) {
	tx, commit := ctx.CacheContext()
	tx = Fresh(tx, 30_000_000)
	var out string
	var err error
	if p := Try(func() { out, err = o.do(l, tx) }); p != "" {
		return "", fmt.Errorf("panics: %s", strings.SplitN(p, "\n", 2)[0])
	}
	if err == nil {
		commit()
	}
	return fmt.Sprintf("%s gas %d", out, tx.GasMeter().GasConsumed()), err
}

func export(w *World, ctx sdk.Context) (gs map[string]json.RawMessage, bad string) {
	var err error
	if p := Try(func() { gs, err = w.App.ModuleManager.ExportGenesisForModules(ctx, w.App.AppCodec(), nil) }); p != "" {
		return nil, "exporting panics: " + p
	}
	if err != nil {
		return nil, "exporting fails: " + err.Error()
	}
	return gs, ""
}

func outcome(s string, err error) string {
	if err != nil {
		return "fails: " + err.Error()
	}
	return s
}

// judge exports, imports and compares.
func (l *lab) judge(c *Check, names []string, probes []op) string {
	ctx := Fresh(Branch(l.base), 1<<50)
	for _, n := range names {
		for _, o := range l.ops {
			if o.name == n {
				_, _ = l.step(ctx, o)
			}
		}
	}
	gs, bad := export(l.w, ctx)
	if bad != "" {
		return bad
	}
	// what a node does with a genesis file before it starts
	for _, m := range []string{evmtypes.ModuleName, banktypes.ModuleName} {
		if err := l.w.App.BasicModuleManager[m].(module.HasGenesisBasics).ValidateGenesis(l.w.App.AppCodec(), TxConfig(), gs[m]); err != nil {
			return "the exported state of " + m + " is not valid: " + err.Error()
		}
	}
	bz, err := json.Marshal(gs)
	Must(err)
	to := Fresh(Branch(l.empty), 1<<50)
	x := l.on(l.e)
	if p := Try(func() { _, err = l.e.App.InitChainer(to, &abci.RequestInitChain{AppStateBytes: bz}) }); p != "" {
		return "importing panics: " + p
	}
	if err != nil {
		return "importing fails: " + err.Error()
	}
	if d := DiffMaps(l.w.DumpStore(ctx, evmtypes.StoreKey), l.e.DumpStore(to, evmtypes.StoreKey)); d != "" {
		return "the contract state differs: " + d
	}
	gs2, bad := export(l.e, to)
	if bad != "" {
		return "second time: " + bad
	}
	var mods []string
	for m := range gs {
		mods = append(mods, m)
	}
	sort.Strings(mods)
	for _, m := range mods {
		if string(gs[m]) != string(gs2[m]) {
			return fmt.Sprintf("the second export of %s differs: %.600s / %.600s", m, gs[m], gs2[m])
		}
	}
	c.State(string(bz))
	to = to.WithBlockHeight(ctx.BlockHeight()).WithBlockTime(ctx.BlockTime()).WithHeaderHash(ctx.HeaderHash())
	for _, o := range probes {
		a, b := Fresh(Branch(ctx), 1<<50), Fresh(Branch(to), 1<<50)
		ra, rb := outcome(l.step(a, o)), outcome(x.step(b, o))
		c.Trans(1)
		if ra != rb {
			return fmt.Sprintf("then [%s]: %.400s / after the import: %.400s", o.name, ra, rb)
		}
		if d := DiffMaps(l.w.DumpStore(a, evmtypes.StoreKey), l.e.DumpStore(b, evmtypes.StoreKey)); d != "" {
			return fmt.Sprintf("then [%s] leads to other contract state after the import: %s", o.name, d)
		}
	}
	return ""
}

// whole exports a running node as the node's command does, starts a chain from the file and runs the same
// blocks on both.
func whole(names []string) string {
	l := newLabOn(func(w *World) sdk.Context { return Fresh(w.Base, 1<<50) })
	cat, dan := NewKey("gen-cat"), NewKey("gen-dan")
	ctx := l.base
	for _, k := range []*Key{cat, dan} {
		l.w.EnsureAcc(ctx, k.Addr)
		Must(l.w.K.ERC20Keeper().MintCoins(ctx, k.Acc(), Coins("1000000stake")))
	}
	for _, n := range names {
		for _, o := range l.ops {
			if o.name == n {
				_, _ = l.step(ctx, o)
			}
		}
	}
	nonce := uint64(0)
	tx := func(to common.Address, data []byte) []byte {
		t := cat.SignEth(&coretypes.DynamicFeeTx{ChainID: EthChainID(), Nonce: nonce, GasTipCap: new(big.Int), GasFeeCap: new(big.Int), Gas: 900_000, To: &to, Value: new(big.Int), Data: data})
		nonce++
		x, err := l.w.EthToSDK(l.w.Ctx2(), t)
		Must(err)
		return l.w.Encode(x)
	}
	for h := int64(2); h <= 4; h++ {
		if _, err := l.w.Block(h, tx(asks, nil)); err != nil {
			return "the first chain stops: " + err.Error()
		}
	}
	ex, err := l.w.App.ExportAppStateAndValidators(false, nil, nil)
	if err != nil {
		return "exporting fails: " + err.Error()
	}
	e := NewWorld(WorldCfg{Empty: true})
	var res *abci.ResponseInitChain
	if p := Try(func() {
		res, err = e.App.InitChain(&abci.RequestInitChain{ChainId: ChainID, InitialHeight: ex.Height, Time: GenesisTime.Add(4 * time.Second), ConsensusParams: &ex.ConsensusParams, AppStateBytes: ex.AppState})
	}); p != "" {
		return "starting from the file panics: " + p
	}
	if err != nil {
		return "starting from the file fails: " + err.Error()
	}
	if len(res.Validators) != len(ex.Validators) {
		return fmt.Sprintf("%d validators became %d", len(ex.Validators), len(res.Validators))
	}
	for h := int64(5); h <= 7; h++ {
		var txs [][]byte
		for _, x := range []struct {
			to common.Address
			in []byte
		}{{asks, nil}, {store, append(common.LeftPadBytes([]byte{byte(h)}, 32), common.LeftPadBytes([]byte{7}, 32)...)}, {l.ft, common.FromHex("18160ddd")}, {dan.Addr, nil}} {
			txs = append(txs, tx(x.to, x.in))
		}
		a, err := l.w.Block(h, txs...)
		if err != nil {
			return "the first chain stops: " + err.Error()
		}
		var b *abci.ResponseFinalizeBlock
		if p := Try(func() { b, err = e.Block(h, txs...) }); p != "" {
			return fmt.Sprintf("block %d panics after the import: %s", h, p)
		}
		if err != nil {
			return fmt.Sprintf("block %d fails after the import: %v", h, err)
		}
		for i := range a.TxResults {
			if x, y := show(a.TxResults[i]), show(b.TxResults[i]); x != y {
				return fmt.Sprintf("transaction %d of block %d: %.900s / after the import: %.900s", i, h, x, y)
			}
		}
		if d := DiffMaps(l.w.DumpStore(l.w.Ctx2(), evmtypes.StoreKey), e.DumpStore(e.Ctx2(), evmtypes.StoreKey)); d != "" {
			return fmt.Sprintf("the contract state differs after block %d: %s", h, d)
		}
	}
	return ""
}

func show(r *abci.ExecTxResult) string { return r.String() }

func wholes() [][]string {
	r := [][]string{nil}
	var all []string
	for _, o := range menu() {
		// one that makes every query of supplies slow or failing, or forbids the rest, has its own run
		if strings.HasPrefix(o.name, "a token that") || o.name == "settings" {
			continue
		}
		all = append(all, o.name)
	}
	r = append(r, all, []string{"settings", "fees in ufoo", "prices", "block hash"}, []string{"a token that has all there is", "destroys itself", "class A changes", "burn A"})
	return r
}

func TestG01(t *testing.T) {
	Run("G01", "bounded", func(c *Check) {
		c.Assume("connection-localhost, which ibc-go exports and its own validation refuses, is left alone: only the exported EVM and bank states are validated before the import")
		c.Assume("balances of the tokens of users are EVM state and are not listed by the bank genesis")
		for _, o := range menu() {
			c.Sample(o.name)
		}
		for _, s := range wholes() {
			s := s
			name := "node: " + strings.Join(s, " ; ")
			c.Exec(name)
			if bad := whole(s); bad != "" {
				c.Violate("G01|"+name, "after ["+name+"]: "+bad, s, func() string { return whole(s) })
				continue
			}
			c.Validated(1)
			c.Outcome("node same")
		}
		n := len(menu())
		depth := Pick(c, 2, 3)
		Parallel(c, 0, func(int) *lab { return newLab() }, func(yield func([]int) bool) {
			for d := 0; d <= depth; d++ {
				if !Sequences(n, d, d, func(s []int) bool { return yield(append([]int{}, s...)) }) {
					return
				}
			}
		}, func(l *lab, seq []int) {
			var names []string
			for _, i := range seq {
				names = append(names, l.ops[i].name)
			}
			name := strings.Join(names, " ; ")
			c.Exec(name)
			probes := l.ops
			if len(seq) > 1 && !c.Thorough() {
				probes = nil
			}
			bad := l.judge(c, names, probes)
			if bad == "" {
				c.Validated(1)
				c.Outcome("same")
				return
			}
			c.Outcome("differs")
			c.Violate("G01|"+name, "after ["+name+"]: "+bad, names, func() string { return l.judge(c, names, probes) })
		})
	})
}
