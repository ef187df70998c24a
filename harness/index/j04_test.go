package index

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rpc"

	ethns "github.com/initia-labs/minievm/jsonrpc/namespaces/eth"
	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// acctState is what the chain itself has of an address after a block.
type acctState struct {
	balance *big.Int // in the unit of Ethereum
	nonce   uint64
	code    []byte
	slots   map[common.Hash]common.Hash
	held    *big.Int // of the first fee token, by its contract
}

// j04Lab keeps the state after each block.
type j04Lab struct {
	*lab
	api   *ethns.EthAPI
	watch []common.Address
	at    map[int64]map[common.Address]acctState
	first common.Address // the first fee token's contract
	head  int64
}

var j04Slots = []common.Hash{{}, common.BigToHash(big.NewInt(1)), common.HexToHash("0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")}

func (k *j04Lab) record() {
	h := k.w.App.LastBlockHeight()
	ctx := Fresh(Branch(k.ctx()), 1<<40)
	p, err := k.w.K.Params.Get(ctx)
	Must(err)
	dec, err := k.w.K.ERC20Keeper().GetDecimals(ctx, p.FeeDenom)
	Must(err)
	unit := func(n math.Int) *big.Int {
		x := n.BigInt()
		if dec > 18 {
			return x.Quo(x, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(dec)-18), nil))
		}
		return x.Mul(x, new(big.Int).Exp(big.NewInt(10), big.NewInt(18-int64(dec)), nil))
	}
	db, err := k.w.K.NewStateDB(Fresh(Branch(ctx), 1<<40), nil, evmtypes.Fee{})
	Must(err)
	m := map[common.Address]acctState{}
	for _, a := range k.watch {
		s := acctState{balance: unit(k.w.Bank.GetBalance(ctx, sdk.AccAddress(a.Bytes()), p.FeeDenom).Amount), slots: map[common.Hash]common.Hash{}}
		if acc := k.w.App.AccountKeeper.GetAccount(ctx, sdk.AccAddress(a.Bytes())); acc != nil {
			s.nonce = acc.GetSequence()
		}
		s.code = db.GetCode(a)
		for _, x := range j04Slots {
			s.slots[x] = db.GetState(a, x)
		}
		s.held = k.w.Bank.GetBalance(ctx, sdk.AccAddress(a.Bytes()), FeeDenom).Amount.BigInt()
		m[a] = s
	}
	k.at[h] = m
}

// call has cat call a contract by a chain transaction.
func (l *lab) call(to common.Address, input []byte) tx {
	m := &evmtypes.MsgCall{Sender: cat.Acc().String(), ContractAddr: to.Hex(), Input: hexutil.Encode(input), Value: math.ZeroInt()}
	o := l.catOpts(m)
	o.Gas = 8_000_000
	return tx{op: "call", bz: l.w.Encode(cat.SignSDK(o)), runs: true, ok: true}
}

// newToken has a token of the given decimals made.
func (l *lab) newToken(dec uint64) (addr common.Address, bad string) {
	fac, err := l.w.K.GetERC20FactoryAddr(l.ctx())
	Must(err)
	name := fmt.Sprintf("%064x", 1) + "78" + strings.Repeat("0", 62)
	in := append(crypto.Keccak256([]byte("createERC20(string,string,uint8)"))[:4], common.FromHex(fmt.Sprintf("%064x%064x%064x", 0x60, 0xa0, dec)+name+name)...)
	if bad = l.play("newtoken", []tx{l.call(fac, in)}); bad != "" {
		return
	}
	db, err := l.w.K.NewStateDB(Fresh(Branch(l.ctx()), 1<<40), nil, evmtypes.Fee{})
	Must(err)
	for n := db.GetNonce(fac); ; n-- {
		addr = crypto.CreateAddress(fac, n)
		if len(db.GetCode(addr)) > 0 {
			break
		}
		if n == 0 {
			panic(HarnessFault("no new token"))
		}
	}
	var txs []tx
	for i, a := range []common.Address{ann.Addr, eve, l.p} {
		txs = append(txs, l.call(addr, append(crypto.Keccak256([]byte("mint(address,uint256)"))[:4], append(common.LeftPadBytes(a.Bytes(), 32), common.BigToHash(big.NewInt(int64(i+1)*1_000_007)).Bytes()...)...)))
	}
	return addr, l.play("mint", txs)
}

// feeToken makes the token the fee token.
func (l *lab) feeToken(tok common.Address) string {
	p, err := l.w.K.Params.Get(l.ctx())
	Must(err)
	d, err := evmtypes.ContractAddrToDenom(l.ctx(), l.w.K, tok)
	Must(err)
	p.FeeDenom = d
	return l.play("feetoken", []tx{l.admin(&evmtypes.MsgUpdateParams{Authority: l.w.App.BankKeeper.GetAuthority(), Params: p})})
}

type j04Chain struct {
	name string
	ops  [][]string
	dec  int // decimals of a second fee token, -1 for none
}

func j04Chains(c *Check) []j04Chain {
	out := []j04Chain{
		{"plain", [][]string{{"store", "p"}, {"value", "poor", "store"}, {}, {"nest", "send", "revert", "create"}, {"list", "legacy", "store", "gas"}, {"junk"}}, -1},
		{"six decimals", [][]string{{"store", "value"}, {"store"}}, 6},
		{"more decimals", [][]string{{"q", "q"}}, 21},
	}
	// every transaction alone, and after every other one, in long chains
	many := func(name string, pairs [][]string, size int) {
		for i := 0; i < len(pairs); i += size {
			out = append(out, j04Chain{fmt.Sprintf("%s %d", name, i/size), pairs[i:min(i+size, len(pairs))], -1})
		}
	}
	var one, two [][]string
	for _, x := range opNames {
		one = append(one, []string{x})
		for _, y := range opNames {
			if c.Thorough() || x == "p" || x == "store" || x == "create" {
				two = append(two, []string{x, y})
			}
		}
	}
	one[0], one[1] = one[1], one[0] // a replay needs something before it
	two = append([][]string{{"p"}}, two...)
	many("one", one, 10)
	many("two", two, 15)
	if c.Thorough() {
		for _, d := range []int{0, 17, 18, 19, 30} {
			out = append(out, j04Chain{fmt.Sprintf("%d decimals", d), [][]string{{"store", "value", "p"}}, d})
		}
	}
	return out
}

func newJ04(ch j04Chain) *j04Lab {
	k := &j04Lab{at: map[int64]map[common.Address]acctState{}}
	l := newLabOf(nil, true, func(l *lab) {
		k.lab, k.first, l.after = l, l.token(), k.record
		k.watch = []common.Address{ann.Addr, ben.Addr, dan.Addr, cat.Addr, eve, k.first, Addr("idx-nobody"), {}}
		for n := uint64(0); n < 6; n++ {
			k.watch = append(k.watch, crypto.CreateAddress(ann.Addr, n))
		}
		k.record()
	})
	for _, o := range ch.ops {
		if bad := l.run(o...); bad != "" {
			panic(HarnessFault("J04 history: " + bad))
		}
	}
	if ch.dec >= 0 {
		tok, bad := l.newToken(uint64(ch.dec))
		if bad == "" {
			bad = l.feeToken(tok)
		}
		if bad == "" {
			bad = l.run("store", "p")
		}
		if bad == "" {
			bad = l.run()
		}
		if bad != "" {
			panic(HarnessFault("J04 fee token: " + bad))
		}
	}
	k.head = l.w.App.LastBlockHeight()
	k.api = l.eth1(l.backend())
	return k
}

// sel is a block selector and the block it selects: 0 for none.
type sel struct {
	name string
	num  *rpc.BlockNumber
	hash *common.Hash
	h    int64
}

func (s sel) either() rpc.BlockNumberOrHash {
	if s.hash != nil {
		return rpc.BlockNumberOrHashWithHash(*s.hash, false)
	}
	return rpc.BlockNumberOrHashWithNumber(*s.num)
}

func (k *j04Lab) selectors() (out []sel) {
	num := func(name string, n rpc.BlockNumber, h int64) { out = append(out, sel{name: name, num: &n, h: h}) }
	num("latest", rpc.LatestBlockNumber, k.head)
	num("pending", rpc.PendingBlockNumber, k.head)
	num("safe", rpc.SafeBlockNumber, k.head)
	num("finalized", rpc.FinalizedBlockNumber, k.head)
	num("earliest", rpc.EarliestBlockNumber, 1)
	for h := int64(1); h <= k.head; h++ {
		num(fmt.Sprintf("block %d", h), rpc.BlockNumber(h), h)
	}
	num("one beyond", rpc.BlockNumber(k.head+1), 0)
	num("far beyond", rpc.BlockNumber(k.head+1000), 0)
	num("huge", rpc.BlockNumber(1<<62), 0)
	hash := func(name string, x common.Hash, h int64) { out = append(out, sel{name: name, hash: &x, h: h}) }
	for h := int64(1); h <= k.head; h++ {
		hash(fmt.Sprintf("hash of %d", h), k.blocks[h].hash, h)
	}
	hash("zero hash", common.Hash{}, 0)
	hash("unknown hash", common.HexToHash("0x123456"), 0)
	for _, t := range k.sent[:1] {
		hash("a transaction's hash", t.eth.Hash(), 0)
	}
	return
}

func js(x any) map[string]any {
	bz, err := json.Marshal(x)
	Must(err)
	var m map[string]any
	if err := json.Unmarshal(bz, &m); err != nil {
		return map[string]any{"value": string(bz)}
	}
	return m
}

func text(x any) string {
	bz, err := json.Marshal(x)
	Must(err)
	return string(bz)
}

// subset says in which key got differs from want.
func subset(got, want map[string]any) string {
	for key, v := range want {
		g, ok := got[key]
		if !ok || text(g) != text(v) {
			return fmt.Sprintf("%s is %s instead of %s", key, text(g), text(v))
		}
	}
	return ""
}

// wantTx is the transaction as the RPC standard shows it.
func (k *j04Lab) wantTx(d *done) map[string]any {
	w := js(d.eth)
	for key, v := range w {
		if v == nil {
			delete(w, key)
		}
	}
	w["from"], w["blockHash"] = js2(d.from), js2(k.blocks[d.h].hash)
	w["blockNumber"], w["transactionIndex"] = hexutil.EncodeUint64(uint64(d.h)), hexutil.EncodeUint64(uint64(d.pos))
	return w
}

func js2(x any) any {
	var v any
	bz, err := json.Marshal(x)
	Must(err)
	Must(json.Unmarshal(bz, &v))
	return v
}

func (k *j04Lab) sameTx(got *rpctypes.RPCTransaction, d *done) string {
	if got == nil {
		return "is not found"
	}
	return subset(js(got), k.wantTx(d))
}

func (k *j04Lab) wantRcpt(d *done) map[string]any {
	r := k.wantReceipt(d)
	w := map[string]any{
		"blockHash": k.blocks[d.h].hash, "blockNumber": hexutil.Uint64(d.h), "transactionHash": d.eth.Hash(), "transactionIndex": hexutil.Uint(d.pos),
		"from": d.from, "to": d.eth.To(), "gasUsed": hexutil.Uint64(d.gas), "cumulativeGasUsed": hexutil.Uint64(d.cumul), "contractAddress": nil,
		"logs": r.Logs, "logsBloom": r.Bloom, "type": hexutil.Uint(d.eth.Type()), "status": hexutil.Uint(r.Status), "effectiveGasPrice": (*hexutil.Big)(r.EffectiveGasPrice),
	}
	if len(r.Logs) == 0 {
		w["logs"] = []any{}
	}
	if d.created != (common.Address{}) {
		w["contractAddress"] = d.created
	}
	return js(w)
}

func (k *j04Lab) wantBlock(b *block, full bool) map[string]any {
	w := map[string]any{"number": hexutil.Uint64(b.h), "hash": b.hash, "gasUsed": hexutil.Uint64(b.header.GasUsed), "timestamp": hexutil.Uint64(GenesisTime.Unix())}
	if b.h > 1 {
		w["timestamp"] = hexutil.Uint64(GenesisTime.Unix() + b.h)
		w["gasUsed"], w["parentHash"] = hexutil.Uint64(b.gas), k.blocks[b.h-1].hash
	}
	if b.fee != nil {
		w["baseFeePerGas"] = (*hexutil.Big)(b.fee)
	}
	if !full {
		hs := []common.Hash{}
		for _, d := range b.list {
			hs = append(hs, d.eth.Hash())
		}
		w["transactions"] = hs
	}
	return js(w)
}

func (k *j04Lab) sameBlock(got map[string]any, err error, b *block, full bool) string {
	if err != nil {
		return err.Error()
	}
	if got == nil {
		return "is null"
	}
	if s := subset(js(got), k.wantBlock(b, full)); s != "" {
		return s
	}
	if full {
		txs := got["transactions"].([]*rpctypes.RPCTransaction)
		if len(txs) != len(b.list) {
			return fmt.Sprintf("%d transactions instead of %d", len(txs), len(b.list))
		}
		for i := range txs {
			if s := k.sameTx(txs[i], &b.list[i]); s != "" {
				return fmt.Sprintf("transaction %d: %s", i, s)
			}
		}
	}
	return ""
}

// gone judges an answer about something that does not exist.
func gone(isNil bool, err error, got any) string {
	if err != nil || isNil {
		return ""
	}
	return "there is no such thing, but the answer is " + text(got)
}

func (k *j04Lab) accounts(s sel, a common.Address) string {
	bs := s.either()
	bal, err1 := k.api.GetBalance(a, bs)
	non, err2 := k.api.GetTransactionCount(a, bs)
	code, err3 := k.api.GetCode(a, bs)
	if s.h == 0 {
		for what, x := range map[string]string{"balance": gone(bal == nil, err1, bal), "nonce": gone(non == nil, err2, non), "code": gone(len(code) == 0, err3, code)} {
			if x != "" {
				return what + ": " + x
			}
		}
		return ""
	}
	w := k.at[s.h][a]
	switch {
	case err1 != nil || bal.ToInt().Cmp(w.balance) != 0:
		return fmt.Sprintf("the balance is %v, %v instead of %v", bal, err1, (*hexutil.Big)(w.balance))
	case err2 != nil || non == nil || uint64(*non) != w.nonce:
		return fmt.Sprintf("the nonce is %v, %v instead of %d", non, err2, w.nonce)
	case err3 != nil || !bytes.Equal(code, w.code):
		return fmt.Sprintf("the code is %v, %v instead of %x", code, err3, w.code)
	}
	for _, x := range j04Slots {
		for _, key := range []string{x.Hex(), hexutil.EncodeBig(x.Big())} {
			v, err := k.api.GetStorageAt(a, key, bs)
			if err != nil || !bytes.Equal(v, w.slots[x].Bytes()) {
				return fmt.Sprintf("slot %s is %v, %v instead of %s", key, v, err, w.slots[x].Hex())
			}
		}
	}
	in := hexutil.Bytes(append(crypto.Keccak256([]byte("balanceOf(address)"))[:4], common.LeftPadBytes(a.Bytes(), 32)...))
	out, err := k.api.Call(rpctypes.TransactionArgs{To: &k.first, Input: &in}, &bs, nil, nil)
	if err != nil || new(big.Int).SetBytes(out).Cmp(w.held) != 0 {
		return fmt.Sprintf("calling balanceOf gives %v, %v instead of %v", out, err, w.held)
	}
	return ""
}

func (k *j04Lab) blockAt(s sel) string {
	b := k.blocks[s.h]
	for _, full := range []bool{true, false} {
		var got map[string]any
		var err error
		if s.hash != nil {
			got, err = k.api.GetBlockByHash(*s.hash, full)
		} else {
			got, err = k.api.GetBlockByNumber(*s.num, full)
		}
		if s.h == 0 {
			if x := gone(got == nil, err, got); x != "" {
				return "the block: " + x
			}
		} else if x := k.sameBlock(got, err, b, full); x != "" {
			return "the block: " + x
		}
	}
	var n *hexutil.Uint
	var err error
	if s.hash != nil {
		n, err = k.api.GetBlockTransactionCountByHash(*s.hash)
	} else {
		n, err = k.api.GetBlockTransactionCountByNumber(*s.num)
	}
	if s.h == 0 {
		if x := gone(n == nil, err, n); x != "" {
			return "the transaction count: " + x
		}
	} else if err != nil || n == nil || int(*n) != len(b.list) {
		return fmt.Sprintf("the transaction count is %v, %v instead of %d", n, err, len(b.list))
	}
	rs, err := k.api.GetBlockReceipts(context.Background(), s.either())
	if s.h == 0 {
		if x := gone(rs == nil, err, rs); x != "" {
			return "the receipts: " + x
		}
	} else if err != nil || len(rs) != len(b.list) {
		return fmt.Sprintf("there are %d receipts, %v instead of %d", len(rs), err, len(b.list))
	} else {
		for i := range rs {
			if x := subset(js(rs[i]), k.wantRcpt(&b.list[i])); x != "" {
				return fmt.Sprintf("receipt %d of the block: %s", i, x)
			}
		}
	}
	size := 3
	if b != nil {
		size = len(b.list) + 2
	}
	for i := 0; i < size; i++ {
		for _, idx := range []uint64{uint64(i), uint64(i) + 1<<32, uint64(i) + 1<<62} {
			var t *rpctypes.RPCTransaction
			var raw hexutil.Bytes
			var err error
			if s.hash != nil {
				t, err = k.api.GetTransactionByBlockHashAndIndex(*s.hash, hexutil.Uint(idx))
				raw = k.api.GetRawTransactionByBlockHashAndIndex(*s.hash, hexutil.Uint(idx))
			} else {
				t, err = k.api.GetTransactionByBlockNumberAndIndex(*s.num, hexutil.Uint(idx))
			}
			if b == nil || idx >= uint64(len(b.list)) {
				if x := gone(t == nil, err, t); x != "" {
					return fmt.Sprintf("transaction %d: %s", idx, x)
				}
				if len(raw) > 0 {
					return fmt.Sprintf("raw transaction %d is %x", idx, raw)
				}
				continue
			}
			if err != nil {
				return fmt.Sprintf("transaction %d: %v", idx, err)
			}
			if x := k.sameTx(t, &b.list[i]); x != "" {
				return fmt.Sprintf("transaction %d: %s", idx, x)
			}
			if w, _ := b.list[i].eth.MarshalBinary(); s.hash != nil && !bytes.Equal(raw, w) {
				return fmt.Sprintf("raw transaction %d is %x instead of %x", idx, raw, w)
			}
		}
	}
	return ""
}

func (k *j04Lab) byHashOf(h common.Hash) string {
	d := k.byHash[h]
	t, err1 := k.api.GetTransactionByHash(h)
	raw, err2 := k.api.GetRawTransactionByHash(h)
	rc, err3 := k.api.GetTransactionReceipt(h)
	if d == nil {
		for what, x := range map[string]string{"transaction": gone(t == nil, err1, t), "bytes": gone(len(raw) == 0, err2, raw), "receipt": gone(rc == nil, err3, rc)} {
			if x != "" {
				return what + ": " + x
			}
		}
		return ""
	}
	if err1 != nil {
		return err1.Error()
	}
	if x := k.sameTx(t, d); x != "" {
		return x
	}
	if w, _ := d.eth.MarshalBinary(); err2 != nil || !bytes.Equal(raw, w) {
		return fmt.Sprintf("its bytes are %x, %v instead of %x", raw, err2, w)
	}
	if err3 != nil || rc == nil {
		return fmt.Sprintf("its receipt is %v, %v", rc, err3)
	}
	if x := subset(js(rc), k.wantRcpt(d)); x != "" {
		return "receipt: " + x
	}
	return ""
}

func TestJ04(t *testing.T) {
	Run("J04", "bounded", func(c *Check) {
		Parallel(c, 0, func(int) int { return 0 }, func(yield func(j04Chain) bool) {
			for _, ch := range j04Chains(c) {
				for i := 0; i < 16; i++ { // one to a worker
					if i > 0 {
						ch = j04Chain{dec: -2}
					}
					if !yield(ch) {
						return
					}
				}
			}
		}, func(_ int, ch j04Chain) {
			if ch.dec == -2 {
				return
			}
			k := newJ04(ch)
			try := func(what string, f func() string) {
				c.Exec(ch.name + ": " + what)
				c.Trans(1)
				var bad string
				ask := func() string {
					if p := Try(func() { bad = f() }); p != "" {
						return "panics: " + p
					}
					return bad
				}
				if s := ask(); s != "" {
					c.Outcome("differs")
					c.Violate("J04|"+ch.name+"|"+what, fmt.Sprintf("blocks %v, %s: %s", ch.ops, what, s), map[string]any{"chain": ch.name, "blocks": ch.ops, "query": what}, ask)
					return
				}
				c.Outcome("agrees")
				c.Validated(1)
			}
			for _, s := range k.selectors() {
				s := s
				for i, a := range k.watch {
					a := a
					c.State(fmt.Sprintf("%s %d account %d", ch.name, s.h, i))
					try(fmt.Sprintf("account %d at %s", i, s.name), func() string { return k.accounts(s, a) })
				}
				c.State(fmt.Sprintf("%s %d", ch.name, s.h))
				try("the block at "+s.name, func() string { return k.blockAt(s) })
			}
			hs := []common.Hash{{}, common.HexToHash("0x1234"), k.blocks[2].hash}
			for _, x := range k.sent {
				hs = append(hs, x.eth.Hash())
			}
			for i, h := range hs {
				h := h
				try(fmt.Sprintf("transaction hash %d", i), func() string { return k.byHashOf(h) })
			}
			try("the number of blocks", func() string {
				if n := k.api.BlockNumber(); int64(n) != k.head {
					return fmt.Sprintf("is %d instead of %d", n, k.head)
				}
				return ""
			})
			try("the chain's id", func() string {
				if n := k.api.ChainId(); n.ToInt().Cmp(EthChainID()) != 0 {
					return fmt.Sprintf("is %d", n)
				}
				return ""
			})
		})
		c.Sample("blocks [store,p] [value,poor,store] …, account 4 at block 3")
	})
}
