// Package cfg explores changes of the chain's settings and the rights they give.
package cfg

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

var (
	alice = NewKey("cfg-alice")
	bob   = NewKey("cfg-bob")
	carol = NewPlainKey("cfg-carol")
	proxy = Addr("cfg-proxy") // forwards its input to the system contract
	sink  = Addr("cfg-sink")
)

type lab struct {
	w    *World
	base sdk.Context
	auth string
	toks map[string]string // name -> denomination
	bad  map[string]bool
	grey map[string]bool
	salt uint64
}

// runtime code deployed by the creations: counts calls in slot 0
var (
	runCode  = NewAsm().Push(0).Op(0x54).Push(1).Op(0x01).Push(0).Op(0x55, 0x00).Bytes()
	initCode = func() []byte {
		// PUSH1 len PUSH1 off PUSH0 CODECOPY PUSH1 len PUSH0 RETURN
		n := byte(len(runCode))
		return append([]byte{0x60, n, 0x60, 10, 0x5f, 0x39, 0x60, n, 0x5f, 0xf3}, runCode...)
	}()
)

// forward copies its input to a call of to and hands on the outcome.
func forward(to common.Address) []byte {
	return NewAsm().Op(0x36).Push(0).Push(0).Op(0x37).Push(0).Push(0).Op(0x36).Push(0).Push(0).PushAddr(to).Op(0x5a, 0xf1).
		Op(0x3d).Push(0).Push(0).Op(0x3e).PushLabel("ok").Op(0x57, 0x3d).Push(0).Op(0xfd).Label("ok").Op(0x3d).Push(0).Op(0xf3).Bytes()
}

// twisted is a token like impl, except for one function.
func twisted(impl common.Address, fn string, act []byte) []byte {
	sel := crypto.Keccak256([]byte(fn))[:4]
	a := NewAsm().Push(0).Op(0x35).Push(0xe0).Op(0x1c).PushB(sel).Op(0x14).PushLabel("bad").Op(0x57)
	a.Op(0x36).Push(0).Push(0).Op(0x37).Push(0).Push(0).Op(0x36).Push(0).PushAddr(impl).Op(0x5a, 0xf4).
		Op(0x3d).Push(0).Push(0).Op(0x3e).PushLabel("ok").Op(0x57, 0x3d).Push(0).Op(0xfd).Label("ok").Op(0x3d).Push(0).Op(0xf3)
	a.Label("bad").Op(act...)
	return a.Bytes()
}

func newLab() *lab {
	cfg := WorldCfg{GenAccs: []authtypes.GenesisAccount{alice.GenAccount(0), bob.GenAccount(1), carol.GenAccount(2)}}
	l := &lab{w: NewWorld(cfg), toks: map[string]string{"stake": FeeDenom}, bad: map[string]bool{}, grey: map[string]bool{}}
	l.w.StartBlock(2, GenesisTime.Add(2*time.Second))
	l.base = Fresh(Branch(l.w.Ctx()), 1<<50)
	l.auth = l.w.App.BankKeeper.GetAuthority()
	ctx := l.base
	for _, k := range []*Key{alice, bob, carol} {
		l.w.FundAcc(ctx, k.Addr, FeeDenom, 8_999_999_999_999_999_000)
	}
	l.w.SetCode(ctx, proxy, forward(common.HexToAddress("0xf1")))
	return l
}

func word(n uint64) []byte { return common.LeftPadBytes(new(big.Int).SetUint64(n).Bytes(), 32) }

func retWord(n uint64) []byte { return NewAsm().Push(n).Push(0).Op(0x52).Push(32).Push(0).Op(0xf3).Bytes() }

// tokens makes the candidates for the fee token.
func (l *lab) tokens() {
	ctx := l.base
	abi, err := erc20.Erc20MetaData.GetAbi()
	Must(err)
	fa, err := l.w.K.GetERC20FactoryAddr(ctx)
	Must(err)
	mk := func(dec uint64) common.Address {
		in := append(crypto.Keccak256([]byte("createERC20(string,string,uint8)"))[:4], common.FromHex(
			fmt.Sprintf("%064x%064x%064x", 0x60, 0xa0, dec)+fmt.Sprintf("%064x", 1)+"78"+strings.Repeat("0", 62)+fmt.Sprintf("%064x", 1)+"78"+strings.Repeat("0", 62))...)
		ret, _, err := l.w.K.EVMCall(Fresh(ctx, 30_000_000), bob.Addr, fa, in, nil, nil)
		Must(err)
		tok := common.BytesToAddress(ret)
		mint, err := abi.Pack("mint", alice.Addr, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(min(dec, 40)+9)), nil))
		Must(err)
		_, _, err = l.w.K.EVMCall(Fresh(ctx, 30_000_000), bob.Addr, tok, mint, nil, nil)
		Must(err)
		return tok
	}
	den := func(a common.Address) string { return "evm/" + strings.ToLower(a.Hex()[2:]) }
	var impl common.Address
	for _, d := range []uint64{0, 6, 18, 30} {
		a := mk(d)
		real, err := evmtypes.ContractAddrToDenom(ctx, l.w.K, a)
		Must(err)
		l.toks[fmt.Sprintf("a token of %d decimals", d)] = real
		impl = a
	}
	l.w.FundAcc(ctx, alice.Addr, "uother", 1_000_000_000_000)
	l.toks["a token made by the chain"] = "uother"
	broken := func(name, d string) { l.toks[name], l.bad[name] = d, true }
	revert, invalid := []byte{0x5f, 0x5f, 0xfd}, []byte{0xfe}
	for _, x := range []struct {
		fn, how string
		act     []byte
	}{
		{"sudoMint(address,uint256)", "reverts", revert}, {"sudoMint(address,uint256)", "burns its gas", invalid}, {"sudoMint(address,uint256)", "does nothing", retWord(1)},
		{"sudoBurn(address,uint256)", "reverts", revert}, {"sudoBurn(address,uint256)", "burns its gas", invalid}, {"sudoBurn(address,uint256)", "does nothing", retWord(1)},
		{"balanceOf(address)", "reverts", revert}, {"balanceOf(address)", "burns its gas", invalid}, {"balanceOf(address)", "is always zero", retWord(0)}, {"balanceOf(address)", "answers nothing", []byte{0}},
		{"decimals()", "reverts", revert}, {"decimals()", "burns its gas", invalid}, {"decimals()", "answers nothing", []byte{0}}, {"decimals()", "is 256", retWord(256)},
		{"sudoTransfer(address,address,uint256)", "reverts", revert},
	} {
		a := mk(18)
		l.w.SetCode(ctx, a, twisted(impl, x.fn, x.act))
		// a token that pretends to work is refused, or executions work with it
		n := strings.SplitN(x.fn, "(", 2)[0] + " " + x.how
		l.toks[n], l.grey[n] = den(a), true
		if x.how == "reverts" && !strings.HasPrefix(x.fn, "sudoT") || x.how == "burns its gas" {
			l.bad[n] = true
		}
	}
	// the same construction without a twist is a working token
	ok := mk(18)
	l.w.SetCode(ctx, ok, twisted(impl, "nothing()", revert))
	l.toks["a forwarding token"] = den(ok)
	broken("no such denomination", "unothing")
	broken("empty", "")
	broken("an account without code", den(sink))
	broken("a contract that is no token", den(proxy))
	broken("a malformed contract denomination", "evm/xyz")
	broken("a short contract denomination", "evm/01")
	broken("a long contract denomination", den(sink)+"00")
	broken("spaces", " stake")
}

func (l *lab) handle(ctx sdk.Context, m sdk.Msg) (res *sdk.Result, err error) {
	h := l.w.App.MsgServiceRouter().Handler(m)
	if h == nil {
		return nil, fmt.Errorf("no handler")
	}
	cc, write := ctx.CacheContext()
	if p := Try(func() { res, err = h(Fresh(cc, 100_000_000), m) }); p != "" {
		return nil, fmt.Errorf("panic: %s", p)
	}
	if err == nil {
		write()
	}
	return res, err
}

func (l *lab) params(ctx sdk.Context) evmtypes.Params {
	p, err := l.w.K.Params.Get(ctx)
	Must(err)
	return p
}

func (l *lab) seq(ctx sdk.Context, k *Key) uint64 {
	return l.w.App.AccountKeeper.GetAccount(ctx, k.Acc()).GetSequence()
}

func (l *lab) num(ctx sdk.Context, k *Key) uint64 {
	return l.w.App.AccountKeeper.GetAccount(ctx, k.Acc()).GetAccountNumber()
}

func (l *lab) sign(ctx sdk.Context, k *Key, msgs ...sdk.Msg) sdk.Tx {
	return k.SignSDK(TxOpts{Msgs: msgs, Gas: 5_000_000, Fee: sdk.Coins{}, Seq: l.seq(ctx, k), AccNum: l.num(ctx, k)})
}

func coins(d string, n int64) sdk.Coins { return sdk.NewCoins(sdk.NewInt64Coin(d, n)) }

func zero() math.Int { return math.ZeroInt() }

func hexOf(b []byte) string { return hexutil.Encode(b) }
