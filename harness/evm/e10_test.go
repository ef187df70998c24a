package evm

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	. "github.com/initia-labs/minievm/verifmc/core"
	evm "github.com/initia-labs/minievm/x/evm"
	evmante "github.com/initia-labs/minievm/x/evm/ante"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// context opcodes: NUMBER TIMESTAMP CHAINID ORIGIN CALLER ADDRESS CALLVALUE GASPRICE BASEFEE SELFBALANCE DIFFICULTY(PREVRANDAO) GASLIMIT
var ctxOps = []byte{0x43, 0x42, 0x46, 0x32, 0x33, 0x30, 0x34, 0x3a, 0x48, 0x47}
var ctxNames = []string{"number", "timestamp", "chainid", "origin", "caller", "address", "callvalue", "gasprice", "basefee", "selfbalance"}

func ctxOp() Op { return Op{K: "ctx", Raw: ctxOps, Note: "context"} }

// scale is floor(price * 10^(18-decimals)).
func scale(price math.LegacyDec, decimals int) (*big.Int, *big.Int) {
	n := price.BigInt() // 18 decimals
	if decimals <= 18 {
		n = new(big.Int).Mul(n, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(18-decimals)), nil))
		n.Div(n, new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil))
	} else {
		n = new(big.Int).Div(n, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(decimals)), nil))
	}
	// prices are carried with nine decimals of the fee token
	tol := big.NewInt(0)
	if 9-decimals > 0 {
		tol = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(9-decimals)), nil)
	}
	return n, tol
}

func near(got, want, tol *big.Int) bool {
	if got.Cmp(want) > 0 {
		return false
	}
	d := new(big.Int).Sub(want, got)
	return d.Sign() == 0 || d.Cmp(tol) < 0
}

// frame of the tree with its expected caller and self
type ctxWant struct {
	caller, self common.Address
	value        uint64
}

type ctxEnv struct {
	height   int64
	unix     int64
	chain    string
	decimals int
	price    string // gas price, "" = none
	min      string // minimum gas price
	value    uint64
	caller   int // 0 the funded caller, 1 an account with a large sequence
}

func (e ctxEnv) String() string {
	return fmt.Sprintf("height=%d time=%d chain=%s decimals=%d price=%q min=%q value=%d", e.height, e.unix, e.chain, e.decimals, e.price, e.min, e.value)
}

type ctxLab struct {
	*lab
	denoms map[int]string
	fees   map[int]common.Address
}

func newCtxLab(c *Check) *ctxLab {
	l := &ctxLab{lab: newLab(c, 2), denoms: map[int]string{}, fees: map[int]common.Address{}}
	ek := l.w.K.ERC20Keeper()
	abi, err := erc20.Erc20MetaData.GetAbi()
	Must(err)
	_ = ek
	for _, d := range []int{0, 2, 6, 9, 10, 18, 24, 30} {
		if d == 18 {
			l.denoms[18] = FeeDenom
			continue
		}
		// a factory token with d decimals
		fa, err := l.w.K.GetERC20FactoryAddr(l.base)
		Must(err)
		_ = abi
		in := append(crypto.Keccak256([]byte("createERC20(string,string,uint8)"))[:4], common.FromHex(
			fmt.Sprintf("%064x%064x%064x", 0x60, 0xa0, d)+fmt.Sprintf("%064x", 1)+"78"+strings.Repeat("0", 62)+fmt.Sprintf("%064x", 1)+"78"+strings.Repeat("0", 62))...)
		ret, _, err := l.w.K.EVMCall(Fresh(l.base, 30_000_000), Caller, fa, in, nil, nil)
		Must(err)
		tok := common.BytesToAddress(ret)
		for i, a := range []common.Address{Caller, ConAddr(0), ConAddr(1)} {
			mint, err := abi.Pack("mint", a, big.NewInt([]int64{1000, 100, 50}[i]))
			Must(err)
			_, _, err = l.w.K.EVMCall(Fresh(l.base, 30_000_000), Caller, tok, mint, nil, nil)
			Must(err)
		}
		den, err := evmtypes.ContractAddrToDenom(l.base, l.w.K, tok)
		Must(err)
		l.denoms[d] = den
	}
	return l
}

// judge runs the context program under the environment and compares everything it saw.
func (l *ctxLab) judge(e ctxEnv, p *Program, want []ctxWant) string {
	ctx := Branch(l.base)
	p.Compile()
	for i := range p.Addrs {
		l.w.SetCode(ctx, p.Addrs[i], p.Code[i])
	}
	prm, err := l.w.K.Params.Get(ctx)
	Must(err)
	denom := l.denoms[e.decimals]
	prm.FeeDenom = denom
	Must(l.w.K.Params.Set(ctx, prm))
	op, err := l.w.App.OPChildKeeper.GetParams(ctx)
	Must(err)
	op.MinGasPrices = sdk.DecCoins{}
	minD := math.LegacyZeroDec()
	if e.min != "" {
		minD = math.LegacyMustNewDecFromStr(e.min)
		op.MinGasPrices = sdk.NewDecCoins(sdk.NewDecCoinFromDec(denom, minD))
	}
	Must(l.w.App.OPChildKeeper.SetParams(ctx, op))
	if _, err := l.w.K.BaseFee(ctx); err != nil {
		return "base fee: " + err.Error()
	}
	priceD := math.LegacyZeroDec()
	if e.price != "" {
		priceD = math.LegacyMustNewDecFromStr(e.price)
		ctx = ctx.WithValue(evmante.ContextKeyGasPrices, sdk.NewDecCoins(sdk.NewDecCoinFromDec(denom, priceD), sdk.NewDecCoinFromDec("zzz", math.LegacyNewDec(77))))
	}
	ctx = ctx.WithBlockHeight(e.height).WithBlockTime(time.Unix(e.unix, 999).UTC()).WithChainID(e.chain).WithHeaderHash(BlockHash(e.height))
	bal := map[common.Address]int64{Caller: 1000, ConAddr(0): 100, ConAddr(1): 50}
	got := l.w.Exec(ctx, Caller, &p.Addrs[0], []byte{0}, e.value, 12_000_000, nil)
	l.c.Trans(len(want))
	if !got.OK {
		return "execution failed: " + got.Err
	}
	bal[Caller] -= int64(e.value)
	bal[ConAddr(0)] += int64(e.value)
	var logs []Log
	for _, x := range got.Logs {
		if len(x.Data) == 32*len(ctxOps) {
			logs = append(logs, x)
		}
	}
	if len(logs) != len(want) {
		return fmt.Sprintf("%d of %d frames reported", len(logs), len(want))
	}
	for i, x := range logs {
		w := func(k int) *big.Int { return new(big.Int).SetBytes(x.Data[32*k : 32*k+32]) }
		a := func(v common.Address) *big.Int { return new(big.Int).SetBytes(v[:]) }
		v := want[i]
		val := v.value
		if v.caller == Caller {
			val = e.value
		}
		gp, tol := scale(priceD, e.decimals)
		bf, _ := scale(minD, e.decimals)
		exp := []*big.Int{big.NewInt(e.height), big.NewInt(e.unix), evmtypes.ConvertCosmosChainIDToEthereumChainID(e.chain), a(Caller), a(v.caller), a(v.self), new(big.Int).SetUint64(val), gp, bf, nil}
		for k, x := range exp {
			if x == nil {
				continue
			}
			ok := w(k).Cmp(x) == 0
			if k == 7 || k == 8 {
				ok = near(w(k), x, tol)
			}
			if !ok {
				return fmt.Sprintf("frame %d sees %s %d, expected %d", i, ctxNames[k], w(k), x)
			}
		}
		_ = bal
		_ = tol
	}
	// balances: what the contracts saw of themselves is what the token contract says at the end
	for i := range logs {
		if i == 0 {
			s := new(big.Int).SetBytes(logs[0].Data[32*9:])
			if s.Cmp(big.NewInt(bal[want[0].self])) != 0 {
				return fmt.Sprintf("frame 0 sees its balance as %d, expected %d", s, bal[want[0].self])
			}
		}
	}
	l.c.State(e.String())
	return ""
}

func TestE10(t *testing.T) {
	Run("E10", "model_checking", func(c *Check) {
		// chain ids are turned into Ethereum's by a fixed rule: pinned values
		pins := map[string]string{"verif-1": "", "minimove-1": "", "a": ""}
		for k := range pins {
			h := crypto.Keccak256([]byte(k))
			want := new(big.Int).Mod(new(big.Int).SetBytes(h[:8]), big.NewInt(4503599627370476))
			if got := evmtypes.ConvertCosmosChainIDToEthereumChainID(k); got.Cmp(want) != 0 {
				c.Violate("chain-id", fmt.Sprintf("%s => %d, expected %d", k, got, want), k, nil)
			}
		}
		// 1. context opcodes over environments and call shapes
		A, B := ConAddr(0), ConAddr(1)
		type shape struct {
			p    func() *Program
			want []ctxWant
		}
		shapes := []shape{
			{func() *Program { return prog(fr("stop", ctxOp()), 2) }, []ctxWant{{Caller, A, 0}}},
			{func() *Program {
				return prog(fr("stop", ctxOp(), quiet(call(1, 3, fr("stop", ctxOp()))), ctxOp()), 2)
			}, []ctxWant{{Caller, A, 0}, {A, B, 3}, {Caller, A, 0}}},
			{func() *Program {
				return prog(fr("stop", ctxOp(), quiet(kall("delegate", 1, fr("stop", ctxOp())))), 2)
			}, []ctxWant{{Caller, A, 0}, {Caller, A, 0}}},
			{func() *Program {
				return prog(fr("stop", ctxOp(), quiet(call(1, 2, fr("stop", quiet(call(0, 1, fr("stop", ctxOp()))), ctxOp())))), 2)
			}, []ctxWant{{Caller, A, 0}, {B, A, 1}, {A, B, 2}}},
			{func() *Program {
				return prog(fr("stop", ctxOp(), quiet(kall("callcode", 1, fr("stop", ctxOp())))), 2)
			}, []ctxWant{{Caller, A, 0}, {A, A, 0}}},
		}
		heights := []int64{2, 257, 1 << 40}
		times := []int64{1, 1704067202, 1 << 33}
		chains := []string{"verif-1", "minimove-1"}
		decs := []int{0, 2, 6, 9, 10, 18, 24, 30}
		prices := []string{"", "1", "0.15", "0.000000001", "0.0000000001", "123456789.987654321", "1000000000000000000.5"}
		values := []uint64{0, 7}
		if c.Thorough() {
			heights = append(heights, 1, 3, 255, 256, 258, 1000000)
			prices = append(prices, "0.333333333333333333", "99999", "0.999999999999999999")
		}
		type item struct {
			e ctxEnv
			s int
		}
		Parallel(c, 0, func(int) *ctxLab { return newCtxLab(c) }, func(yield func(item) bool) {
			for s := range shapes {
				for _, h := range heights {
					for _, ti := range times {
						for _, ch := range chains {
							if !yield(item{ctxEnv{h, ti, ch, 18, "0.15", "0.1", values[int(h+ti)%2], 0}, s}) {
								return
							}
						}
					}
				}
				for _, d := range decs {
					for _, p := range prices {
						for _, m := range prices {
							for _, v := range values {
								if !yield(item{ctxEnv{5, 1704067205, "verif-1", d, p, m, v, 0}, s}) {
									return
								}
							}
						}
					}
				}
			}
		}, func(l *ctxLab, it item) {
			name := fmt.Sprintf("shape %d %s", it.s, it.e)
			c.Exec(name)
			if d := l.judge(it.e, shapes[it.s].p(), shapes[it.s].want); d != "" {
				c.Violate("context", name+" => "+d, name, func() string { return newCtxLab(c).judge(it.e, shapes[it.s].p(), shapes[it.s].want) })
				return
			}
			c.Validated(1)
		})

		// 2. historical block hashes under every sequence of retention settings
		reader := func(top int) []byte { // returns BLOCKHASH(0..top-1)
			a := NewAsm()
			for i := 0; i < top; i++ {
				a.Push(uint64(i)).Op(0x40).Push(uint64(32 * i)).Op(0x52)
			}
			return a.Push(uint64(32 * top)).Push(0).Op(0xf3).Bytes()
		}
		L := newLab(c, 1)
		depth := Pick(c, 5, 7)
		nums := []uint64{0, 1, 2, 3}
		rd := Addr("hash-reader")
		top := depth + 4
		L.w.SetCode(L.base, rd, reader(top))
		var walk func(ctx sdk.Context, h int64, hist []uint64) string
		must := func(hist []uint64, cur, n int64) (surely, maybe bool) {
			// hist[i] is the setting when block i+1 was recorded; at the start of block `cur` blocks 1..cur have been processed
			surely, maybe = true, true
			for b := n; b <= cur; b++ {
				k := hist[b-1]
				if k != 0 && b > int64(k) && n <= b-int64(k) {
					surely = false // the window of that time excluded n
					if n == b-int64(k) {
						maybe = false
					}
				}
			}
			return
		}
		setNum := func(ctx sdk.Context, n uint64) {
			p, err := L.w.K.Params.Get(ctx)
			Must(err)
			p.NumRetainBlockHashes = n
			Must(L.w.K.Params.Set(ctx, p))
		}
		walk = func(ctx sdk.Context, h int64, hist []uint64) string {
			if h > int64(depth) {
				return ""
			}
			for _, n := range nums {
				cc := Branch(ctx)
				setNum(cc, n)
				cc = cc.WithBlockHeight(h).WithHeaderHash(BlockHash(h)).WithBlockTime(GenesisTime.Add(time.Duration(h) * time.Second))
				hh := append(append([]uint64{}, hist...), n)
				if _, err := evm.PreBlock(cc, L.w.K); err != nil {
					return err.Error()
				}
				c.Trans(1)
				c.Exec(fmt.Sprint("retain", hh))
				r := L.w.Exec(cc, Caller, &rd, nil, 0, 5_000_000, nil)
				if !r.OK {
					return "reader failed: " + r.Err
				}
				for k := int64(0); k < int64(top); k++ {
					got := r.Ret[32*k : 32*k+32]
					zero := common.BytesToHash(got) == (common.Hash{})
					right := common.BytesToHash(got) == common.BytesToHash(BlockHash(k))
					var d string
					switch {
					case !zero && !right:
						d = "another block's hash"
						for x := int64(0); x <= h+1; x++ {
							if common.BytesToHash(got) == common.BytesToHash(BlockHash(x)) {
								d = fmt.Sprintf("the hash of block %d", x)
							}
						}
					case !zero && (k >= h || k < 1 || k < h-256):
						d = "a hash outside the window"
					case k >= 1 && k < h:
						if s, m := must(hh, h, k); s && zero {
							d = "zero though the block is retained"
						} else if !m && !zero {
							d = "a hash that is no longer retained"
						}
					}
					if d != "" {
						return fmt.Sprintf("retention %v: in block %d BLOCKHASH(%d) is %s", hh, h, k, d)
					}
				}
				c.State(fmt.Sprint(hh, r.Ret))
				if d := walk(cc, h+1, hh); d != "" {
					return d
				}
			}
			return ""
		}
		if d := walk(L.base, 1, nil); d != "" {
			c.Violate("blockhash", d, d, func() string { return walk(L.base, 1, nil) })
		} else {
			c.Validated(1)
		}

		// 3. the same through real blocks and transactions, across the 256-block window
		k := NewKey("e10")
		deep := Pick(c, int64(262), 600)
		reader2 := func() []byte { // logs number, gasprice, origin and BLOCKHASH(number-1), (number-2), (number-255..257), (number), (number+1)
			a := NewAsm()
			a.Op(0x43).Push(0).Op(0x52).Op(0x3a).Push(32).Op(0x52).Op(0x32).Push(64).Op(0x52)
			for i, d := range []uint64{1, 2, 255, 256, 257} {
				a.Push(d).Op(0x43).Op(0x03).Op(0x40).Push(uint64(96 + 32*i)).Op(0x52)
			}
			a.Op(0x43).Op(0x40).Push(256).Op(0x52)
			a.Push(1).Op(0x43).Op(0x01).Op(0x40).Push(288).Op(0x52)
			return a.Push(1).Push(320).Push(0).Op(0xa1).Op(0x00).Bytes()
		}
		real := func() string {
			w := NewWorld(WorldCfg{GenAccs: []authtypes.GenesisAccount{k.GenAccount(0)}})
			// put the reader into the committed state: block 2 deploys it
			init := func() []byte {
				rt := reader2()
				a := NewAsm()
				a.Data("rt", rt)
				return a.Push(uint64(len(rt))).PushLabel("rt").Push(0).Op(0x39).Push(uint64(len(rt))).Push(0).Op(0xf3).Bytes()
			}()
			seq := uint64(0)
			var con string
			for h := int64(2); h <= deep; h++ {
				var txs [][]byte
				send := h <= 6 || h >= 254 && h <= 262 || h%97 == 0 || h == deep
				gas := uint64(400_000 + h)
				if h == 2 {
					txs = append(txs, w.Encode(k.SignSDK(TxOpts{Msgs: []sdk.Msg{&evmtypes.MsgCreate{Sender: k.Acc().String(), Code: "0x" + common.Bytes2Hex(init), Value: math.ZeroInt()}}, Gas: 3_000_000, Fee: sdk.Coins{}, Seq: seq, AccNum: w.App.AccountKeeper.GetAccount(w.Base, k.Acc()).GetAccountNumber()})))
					seq++
				} else if send {
					txs = append(txs, w.Encode(k.SignSDK(TxOpts{Msgs: []sdk.Msg{&evmtypes.MsgCall{Sender: k.Acc().String(), ContractAddr: con, Input: "0x", Value: math.ZeroInt()}}, Gas: gas, Fee: sdk.Coins{}, Seq: seq, AccNum: w.App.AccountKeeper.GetAccount(w.Base, k.Acc()).GetAccountNumber()})))
					seq++
				}
				res, err := w.Block(h, txs...)
				if err != nil {
					return fmt.Sprintf("block %d: %v", h, err)
				}
				c.Trans(1)
				if len(txs) == 0 {
					continue
				}
				if res.TxResults[0].Code != 0 {
					return fmt.Sprintf("block %d: %s", h, res.TxResults[0].Log)
				}
				var tmd sdk.TxMsgData
				Must(tmd.Unmarshal(res.TxResults[0].Data))
				if h == 2 {
					var r evmtypes.MsgCreateResponse
					Must(r.Unmarshal(tmd.MsgResponses[0].Value))
					con = r.ContractAddr
					seq = w.App.AccountKeeper.GetAccount(w.Ctx2(), k.Acc()).GetSequence()
					continue
				}
				seq = w.App.AccountKeeper.GetAccount(w.Ctx2(), k.Acc()).GetSequence()
				var r evmtypes.MsgCallResponse
				Must(r.Unmarshal(tmd.MsgResponses[0].Value))
				if len(r.Logs) != 1 {
					return fmt.Sprintf("block %d: %d logs", h, len(r.Logs))
				}
				d := common.FromHex(r.Logs[0].Data)
				word := func(i int) common.Hash { return common.BytesToHash(d[32*i : 32*i+32]) }
				if word(0).Big().Int64() != h || common.BytesToAddress(word(2).Bytes()) != k.Addr {
					return fmt.Sprintf("block %d: number %s origin %s", h, word(0), word(2))
				}
				for i, back := range []int64{1, 2, 255, 256, 257} {
					n := h - back
					want := common.Hash{}
					if n >= 1 && back <= 255 {
						want = common.BytesToHash(BlockHash(n))
					}
					if got := word(3 + i); got != want && !(back == 256 && n >= 1 && got == common.BytesToHash(BlockHash(n))) {
						return fmt.Sprintf("in block %d BLOCKHASH(%d) is %s, expected %s", h, n, got, want)
					}
				}
				if word(8) != (common.Hash{}) || word(9) != (common.Hash{}) {
					return fmt.Sprintf("in block %d the current or next block has a hash", h)
				}
				c.Exec(fmt.Sprintf("real block %d", h))
				c.State(fmt.Sprintf("real %x", d))
			}
			return ""
		}
		if d := real(); d != "" {
			c.Violate("blockhash-real", d, d, real)
		} else {
			c.Validated(1)
		}

		// 4. gas price seen by real transactions of both kinds
		gp := reader2()
		rich := NewKey("e10-rich")
		mk := func() *World {
			w := NewWorld(WorldCfg{GenAccs: []authtypes.GenesisAccount{k.GenAccount(0)}})
			w.StartBlock(2, GenesisTime.Add(2*time.Second))
			w.FundAcc(w.Ctx(), k.Addr, FeeDenom, 1_000_000_000_000)
			w.SetCode(w.Ctx(), rd, gp)
			return w
		}
		_ = rich
		wp := mk()
		restore := wp.Save()
		num := wp.App.AccountKeeper.GetAccount(wp.Ctx(), k.Acc()).GetAccountNumber()
		priceOf := func(data []byte) (*big.Int, string) {
			var tmd sdk.TxMsgData
			Must(tmd.Unmarshal(data))
			var r evmtypes.MsgCallResponse
			Must(r.Unmarshal(tmd.MsgResponses[0].Value))
			if len(r.Logs) != 1 {
				return nil, "no log"
			}
			return new(big.Int).SetBytes(common.FromHex(r.Logs[0].Data)[32:64]), ""
		}
		unit := big.NewInt(1) // the fee token has 18 decimals
		for _, gas := range []uint64{300_000, 400_001, 999_983} {
			for _, fee := range []int64{0, 1, 300_000, 999_999, 7_000_000_000} {
				restore()
				c.Exec(fmt.Sprintf("sdk gas=%d fee=%d", gas, fee))
				c.Trans(1)
				coins := sdk.Coins{}
				if fee > 0 {
					coins = sdk.NewCoins(sdk.NewInt64Coin(FeeDenom, fee))
				}
				d := wp.Deliver(k.SignSDK(TxOpts{Msgs: []sdk.Msg{&evmtypes.MsgCall{Sender: k.Acc().String(), ContractAddr: rd.Hex(), Input: "0x", Value: math.ZeroInt()}}, Gas: gas, Fee: coins, Seq: 0, AccNum: num}))
				if d.Err != "" {
					c.Violate("gasprice", d.Err, gas, nil)
					continue
				}
				got, e := priceOf(d.Data)
				want := new(big.Int).Div(new(big.Int).Mul(big.NewInt(fee), unit), new(big.Int).SetUint64(gas))
				if e != "" || got.Cmp(want) != 0 {
					c.Violate("gasprice", fmt.Sprintf("gas %d fee %d: contract sees gas price %v, expected %v %s", gas, fee, got, want, e), gas, nil)
				}
				c.Validated(1)
			}
			for _, price := range []int64{0, 1, 5, 1000} { // in fee units per gas
				restore()
				wei := new(big.Int).Mul(big.NewInt(price), unit)
				for kind := 0; kind < 2; kind++ {
					restore()
					var td coretypes.TxData = &coretypes.LegacyTx{Nonce: 0, GasPrice: wei, Gas: gas, To: &rd, Value: big.NewInt(0)}
					if kind == 1 {
						td = &coretypes.DynamicFeeTx{ChainID: EthChainID(), Nonce: 0, GasFeeCap: wei, GasTipCap: wei, Gas: gas, To: &rd, Value: big.NewInt(0)}
					}
					c.Exec(fmt.Sprintf("eth kind=%d gas=%d price=%d", kind, gas, price))
					c.Trans(1)
					stx, err := wp.EthToSDK(wp.Ctx(), k.SignEth(td))
					if err != nil {
						c.Violate("gasprice", err.Error(), gas, nil)
						continue
					}
					d := wp.Deliver(stx)
					if d.Err != "" {
						c.Violate("gasprice", fmt.Sprintf("eth gas %d price %d: %s", gas, price, d.Err), gas, nil)
						continue
					}
					got, e := priceOf(d.Data)
					// the fee may be rounded up by at most one unit
					hi := new(big.Int).Add(wei, new(big.Int).Div(unit, new(big.Int).SetUint64(gas)))
					if e != "" || got.Cmp(wei) < 0 || got.Cmp(hi) > 0 {
						c.Violate("gasprice", fmt.Sprintf("eth kind %d gas %d price %s: contract sees gas price %v %s", kind, gas, wei, got, e), gas, nil)
					}
					c.Validated(1)
				}
			}
		}
		c.Assume("block hashes handed to FinalizeBlock are the chain's own hashes of those blocks")
	})
}
