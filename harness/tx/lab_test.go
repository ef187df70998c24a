// Package tx explores transactions through the real transaction pipeline.
package tx

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"

	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

var (
	alice   = NewKey("tx-alice")
	bob     = NewKey("tx-bob")
	granter = NewKey("tx-granter")
	carol   = NewPlainKey("tx-carol")
	counter = Addr("tx-counter") // slot0 += 1, logs, keeps value
	revert  = Addr("tx-reverter")
	looper  = Addr("tx-looper") // burns all gas
	sink    = Addr("tx-sink")   // no code
)

// counterInit deploys the counter's runtime code.
var counterCode = NewAsm().Push(0).Op(0x54).Push(1).Op(0x01).Push(0).Op(0x55).Push(0).Push(0).Op(0xa0, 0x00).Bytes()

func initOf(code []byte) []byte {
	a := NewAsm()
	a.Push(uint64(len(code))).PushLabel("d").Push(0).Op(0x39).Push(uint64(len(code))).Push(0).Op(0xf3).Label("d")
	b := a.Bytes()
	// the label is a jump destination; the code follows it
	b2 := append([]byte{}, b...)
	// PUSHn len, PUSH2 off: replace the offset by one past the label
	for i := 0; i+2 < len(b2); i++ {
		if b2[i] == 0x61 {
			off := len(b)
			b2[i+1], b2[i+2] = byte(off>>8), byte(off)
			break
		}
	}
	return append(b2, code...)
}

type lab struct {
	w      *World
	base   sdk.Context
	denoms map[int]string
	toks   map[int]common.Address
}

var decimalsSet = []int{0, 2, 6, 9, 10, 18, 24, 30}

func newLab(decimals []int, opts ...func(*WorldCfg)) *lab {
	cfg := WorldCfg{GenAccs: []authtypes.GenesisAccount{alice.GenAccount(0), bob.GenAccount(1), granter.GenAccount(2), carol.GenAccount(3)}}
	for _, o := range opts {
		o(&cfg)
	}
	l := &lab{w: NewWorld(cfg), denoms: map[int]string{18: FeeDenom}, toks: map[int]common.Address{}}
	l.w.StartBlock(2, GenesisTime.Add(2*time.Second))
	l.base = Fresh(Branch(l.w.Ctx()), 1<<50)
	ctx := l.base
	for _, k := range []*Key{alice, bob, granter, carol} {
		l.w.FundAcc(ctx, k.Addr, FeeDenom, 8_999_999_999_999_999_000)
	}
	l.w.SetCode(ctx, counter, counterCode)
	l.w.SetCode(ctx, revert, []byte{0x60, 0, 0x60, 0, 0xfd})
	l.w.SetCode(ctx, looper, []byte{0x5b, 0x60, 0, 0x56})
	abi, err := erc20.Erc20MetaData.GetAbi()
	Must(err)
	fa, err := l.w.K.GetERC20FactoryAddr(ctx)
	Must(err)
	for _, d := range decimals {
		if d == 18 {
			continue
		}
		in := append(crypto.Keccak256([]byte("createERC20(string,string,uint8)"))[:4], common.FromHex(
			fmt.Sprintf("%064x%064x%064x", 0x60, 0xa0, d)+fmt.Sprintf("%064x", 1)+"78"+strings.Repeat("0", 62)+fmt.Sprintf("%064x", 1)+"78"+strings.Repeat("0", 62))...)
		ret, _, err := l.w.K.EVMCall(Fresh(ctx, 30_000_000), granter.Addr, fa, in, nil, nil)
		Must(err)
		tok := common.BytesToAddress(ret)
		for _, k := range []*Key{alice, bob, granter} {
			mint, err := abi.Pack("mint", k.Addr, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(min(d, 40)+9)), nil))
			Must(err)
			_, _, err = l.w.K.EVMCall(Fresh(ctx, 30_000_000), granter.Addr, tok, mint, nil, nil)
			Must(err)
		}
		den, err := evmtypes.ContractAddrToDenom(ctx, l.w.K, tok)
		Must(err)
		l.denoms[d], l.toks[d] = den, tok
	}
	return l
}

// at is a branch where the token with d decimals pays the fees.
func (l *lab) at(d int) sdk.Context {
	ctx := Branch(l.base)
	if d != 18 {
		prm, err := l.w.K.Params.Get(ctx)
		Must(err)
		prm.FeeDenom = l.denoms[d]
		Must(l.w.K.Params.Set(ctx, prm))
	}
	return ctx
}

func (l *lab) seq(ctx sdk.Context, k *Key) uint64 {
	a := l.w.App.AccountKeeper.GetAccount(ctx, k.Acc())
	if a == nil {
		return 0
	}
	return a.GetSequence()
}

func (l *lab) num(ctx sdk.Context, k *Key) uint64 {
	return l.w.App.AccountKeeper.GetAccount(ctx, k.Acc()).GetAccountNumber()
}

func (l *lab) slot0(ctx sdk.Context, a common.Address) uint64 {
	db, err := l.w.K.NewStateDB(ctx.WithGasMeter(storetypes.NewInfiniteGasMeter()), nil, evmtypes.Fee{})
	Must(err)
	h := db.GetState(a, common.Hash{})
	return new(uint256.Int).SetBytes(h[:]).Uint64()
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }
func bi(n int64) *big.Int  { return big.NewInt(n) }

// wei is the 18-decimals amount of x token units, as an exact fraction.
func wei(x *big.Int, d int) *big.Rat {
	return new(big.Rat).Mul(new(big.Rat).SetInt(x), new(big.Rat).SetFrac(pow10(18), pow10(d)))
}

// units is the token amount of v wei, as an exact fraction.
func units(v *big.Int, d int) *big.Rat {
	return new(big.Rat).Mul(new(big.Rat).SetInt(v), new(big.Rat).SetFrac(pow10(d), pow10(18)))
}

func ethTx(typ int, nonce uint64, to *common.Address, value, cap, tip *big.Int, gas uint64, data []byte, al coretypes.AccessList) coretypes.TxData {
	switch typ {
	case 0:
		return &coretypes.LegacyTx{Nonce: nonce, GasPrice: cap, Gas: gas, To: to, Value: value, Data: data}
	case 1:
		return &coretypes.AccessListTx{ChainID: EthChainID(), Nonce: nonce, GasPrice: cap, Gas: gas, To: to, Value: value, Data: data, AccessList: al}
	case 2:
		return &coretypes.DynamicFeeTx{ChainID: EthChainID(), Nonce: nonce, GasFeeCap: cap, GasTipCap: tip, Gas: gas, To: to, Value: value, Data: data, AccessList: al}
	}
	panic(HarnessFault("tx type"))
}

func coins(d string, n *big.Int) sdk.Coins {
	return sdk.NewCoins(sdk.NewCoin(d, math.NewIntFromBigInt(n)))
}
