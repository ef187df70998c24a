// Package index explores block histories through the real node: its index and its RPC answers.
package index

import (
	"context"
	"fmt"
	"math/big"
	"strings"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtcoretypes "github.com/cometbft/cometbft/rpc/core/types"
	comettypes "github.com/cometbft/cometbft/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/server"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/indexer"
	"github.com/initia-labs/minievm/jsonrpc/backend"
	"github.com/initia-labs/minievm/jsonrpc/config"
	ethns "github.com/initia-labs/minievm/jsonrpc/namespaces/eth"
	"github.com/initia-labs/minievm/jsonrpc/namespaces/eth/filters"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

var (
	ann = NewKey("idx-ann")
	ben = NewKey("idx-ben")
	dan = NewKey("idx-dan") // cannot pay fees until funded
	cat = NewKey("idx-cat") // signs chain transactions; the chain's admin
	eve = Addr("idx-eve")
)

var t1, t2, t3 = common.HexToHash("0x71"), common.HexToHash("0x72"), common.HexToHash("0x73")

// wantLog is a log as the program that emits it defines it.
type wantLog struct {
	addr   common.Address
	topics []common.Hash
	data   []byte
}

// tx is one transaction of a block and what must come of it.
type tx struct {
	op      string
	bz      []byte
	eth     *coretypes.Transaction // nil for chain transactions
	from    common.Address
	runs    bool // it executes (else the chain turns it away)
	ok      bool
	logs    []wantLog
	created common.Address
}

// done is a transaction that executed.
type done struct {
	tx
	h          int64
	pos        int // position among the Ethereum transactions of the block
	gas, cumul uint64
	log0       uint // the block-wide index of its first log
}

type block struct {
	h      int64
	list   []done
	hash   common.Hash
	header *coretypes.Header
	gas    uint64
	fee    *big.Int // base fee; nil when it changes within the block
	ops    string
}

type lab struct {
	w      *World
	idx    *indexer.EVMIndexerImpl
	p, q   common.Address // log senders
	nest   common.Address // calls p, then a frame that logs and reverts, then logs
	rev    common.Address // logs, then reverts
	loop   common.Address // logs, then burns all gas
	store  common.Address // slot 0 += 1
	blocks map[int64]*block
	byHash map[common.Hash]*done
	sent   []tx // all Ethereum transactions ever given to a block
	seqs   map[*Key]uint64
	heads  chan *coretypes.Header
	logs   chan []*coretypes.Log
	blind  bool // do not compare the index with each block
	after  func()
}

// emit appends a LOGn with the topics and the data byte.
func emit(a *Asm, data byte, topics ...common.Hash) *Asm {
	a.Push(uint64(data)).Push(0).Op(0x53) // MSTORE8 0
	for i := len(topics) - 1; i >= 0; i-- {
		a.PushB(topics[i].Bytes())
	}
	return a.Push(1).Push(0).Op(0xa0 + byte(len(topics)))
}

func callOut(a *Asm, to common.Address) *Asm {
	return a.Push(0).Push(0).Push(0).Push(0).Push(0).PushAddr(to).Push(200000).Op(0xf1, 0x50)
}

// deployer returns code that installs the runtime code, after running pre.
func deployer(pre, run []byte) []byte {
	tail := func(off int) []byte {
		n := len(run)
		return append(append([]byte{}, pre...), 0x61, byte(n>>8), byte(n), 0x61, byte(off>>8), byte(off), 0x60, 0, 0x39, 0x61, byte(n>>8), byte(n), 0x60, 0, 0xf3)
	}
	return append(tail(len(tail(0))), run...)
}

func worldCfg() WorldCfg {
	coins := func(k *Key) banktypes.Balance {
		return banktypes.Balance{Address: k.Acc().String(), Coins: Coins("1000000000000000000000000000" + FeeDenom)}
	}
	return WorldCfg{
		Opts:     AppOpts{"indexer.enable": true, "indexer.cache-capacity": 1, "indexer.backend": map[string]any{}},
		GenAccs:  []authtypes.GenesisAccount{ann.GenAccount(0), ben.GenAccount(1), dan.GenAccount(2), cat.GenAccount(3)},
		Balances: []banktypes.Balance{coins(ann), coins(ben), coins(cat)},
		MutGenesis: func(app *minievmapp.MinitiaApp, gs minievmapp.GenesisState) {
			var op opchildtypes.GenesisState
			app.AppCodec().MustUnmarshalJSON(gs[opchildtypes.ModuleName], &op)
			op.Params.Admin = cat.Acc().String()
			gs[opchildtypes.ModuleName] = app.AppCodec().MustMarshalJSON(&op)
		},
	}
}

func newLab(db dbm.DB) *lab { return newLabOf(db, false) }

// newLabOf makes a node with the contracts; start is called after its first block.
func newLabOf(db dbm.DB, blind bool, start ...func(*lab)) *lab {
	return labOn(nil, db, blind, start...)
}

func newLabOn(app, idx dbm.DB) *lab { return labOn(app, idx, false) }

func labOn(app, db dbm.DB, blind bool, start ...func(*lab)) *lab {
	cfg := worldCfg()
	cfg.DB, cfg.IndexDB = app, db
	return labWith(cfg, blind, start...)
}

// labWith makes the node of a configuration, which may have no index.
func labWith(cfg WorldCfg, blind bool, start ...func(*lab)) *lab {
	l := &lab{blind: blind, w: NewApp(cfg), blocks: map[int64]*block{}, byHash: map[common.Hash]*done{}, seqs: map[*Key]uint64{}}
	l.blocks[1] = &block{h: 1, fee: l.fee()}
	if i := l.w.App.EVMIndexer(); i != nil {
		l.idx = i.(*indexer.EVMIndexerImpl)
		l.heads, l.logs, _ = l.idx.Subscribe()
		h, err := l.idx.BlockHeaderByNumber(l.ctx(), 1)
		Must(err)
		l.blocks[1].header, l.blocks[1].hash = h, h.Hash()
	}
	for _, f := range start {
		f(l)
	}
	// block 2 has the contracts
	var txs []tx
	deploy := func(pre, run []byte, logs ...wantLog) common.Address {
		t := l.eth(ann, nil, deployer(pre, run), 3_000_000)
		t.created = crypto.CreateAddress(ann.Addr, t.eth.Nonce())
		t.runs, t.ok = true, true
		txs = append(txs, t)
		return t.created
	}
	l.p = deploy(nil, emit(emit(NewAsm(), 1, t1), 2, t2, t1).Bytes())
	l.q = deploy(nil, emit(emit(NewAsm(), 3), 4, t1, t2, t3, t1).Bytes())
	l.rev = deploy(nil, emit(NewAsm(), 5, t1).Push(0).Push(0).Op(0xfd).Bytes())
	l.loop = deploy(nil, emit(NewAsm(), 6, t1).Label("x").PushLabel("x").Op(0x56).Bytes())
	n := callOut(NewAsm(), l.p)
	l.nest = deploy(nil, emit(callOut(emit(n, 7, t3), l.rev), 8, t2).Bytes())
	l.store = deploy(nil, NewAsm().Push(0).Op(0x54).Push(1).Op(0x01).Push(0).Op(0x55).Bytes())
	if bad := l.play("deploy", txs); bad != "" {
		panic(HarnessFault("deploying: " + bad))
	}
	return l
}

func (l *lab) ctx() sdk.Context { return l.w.Ctx2() }

func (l *lab) fee() *big.Int {
	f, err := l.w.K.BaseFee(l.ctx())
	Must(err)
	return f
}

// token is the contract of the fee token.
func (l *lab) token() common.Address {
	a, err := l.w.K.GetContractAddrByDenom(l.ctx(), FeeDenom)
	Must(err)
	return a
}

func (l *lab) next(k *Key) uint64 { n := l.seqs[k]; l.seqs[k]++; return n }

// eth makes a dynamic-fee transaction with the key's next nonce.
func (l *lab) eth(k *Key, to *common.Address, data []byte, gas uint64, mods ...func(*coretypes.DynamicFeeTx)) tx {
	d := &coretypes.DynamicFeeTx{ChainID: EthChainID(), Nonce: l.next(k), GasFeeCap: big.NewInt(0), GasTipCap: big.NewInt(0), Gas: gas, To: to, Value: big.NewInt(0), Data: data}
	for _, m := range mods {
		m(d)
	}
	return l.wrap(k, d)
}

func (l *lab) wrap(k *Key, d coretypes.TxData) tx {
	e := k.SignEth(d)
	x, err := l.w.EthToSDK(l.ctx(), e)
	Must(err)
	return tx{eth: e, from: k.Addr, bz: l.w.Encode(x)}
}

func (l *lab) pq(a common.Address) []wantLog {
	if a == l.p {
		return []wantLog{{l.p, []common.Hash{t1}, []byte{1}}, {l.p, []common.Hash{t2, t1}, []byte{2}}}
	}
	return []wantLog{{l.q, []common.Hash{}, []byte{3}}, {l.q, []common.Hash{t1, t2, t3, t1}, []byte{4}}}
}

// opNames are the transactions that histories are made of.
var opNames = []string{"plain", "p", "q", "legacy", "list", "nest", "create", "value", "revert", "gas", "badcreate", "send", "sdkcall", "replay", "poor", "gap", "junk", "nokey", "twist", "store"}

// make builds the transaction; nonces count on everything before being delivered.
func (l *lab) make(op string) tx {
	var t tx
	switch op {
	case "plain":
		t = l.eth(ben, &eve, nil, 300000)
		t.runs, t.ok = true, true
	case "value":
		t = l.eth(ann, &eve, nil, 400000, func(d *coretypes.DynamicFeeTx) { d.Value = big.NewInt(7) })
		t.runs, t.ok = true, true
		// moving the fee token is a call of its contract, which logs
		t.logs = []wantLog{{l.token(), []common.Hash{crypto.Keccak256Hash([]byte("Transfer(address,address,uint256)")), common.BytesToHash(ann.Addr.Bytes()), common.BytesToHash(eve.Bytes())}, common.BigToHash(big.NewInt(7)).Bytes()}}
	case "p", "q":
		to := map[string]common.Address{"p": l.p, "q": l.q}[op]
		t = l.eth(ann, &to, []byte{1}, 400000)
		t.runs, t.ok, t.logs = true, true, l.pq(to)
	case "store":
		t = l.eth(ben, &l.store, nil, 400000)
		t.runs, t.ok = true, true
	case "legacy":
		t = l.wrap(ann, &coretypes.LegacyTx{Nonce: l.next(ann), GasPrice: big.NewInt(0), Gas: 400000, To: &l.p, Value: big.NewInt(0)})
		t.runs, t.ok, t.logs = true, true, l.pq(l.p)
	case "list":
		t = l.wrap(ben, &coretypes.AccessListTx{ChainID: EthChainID(), Nonce: l.next(ben), GasPrice: big.NewInt(0), Gas: 400000, To: &l.q, Value: big.NewInt(0), AccessList: coretypes.AccessList{{Address: l.q, StorageKeys: []common.Hash{t1}}}})
		t.runs, t.ok, t.logs = true, true, l.pq(l.q)
	case "nest":
		t = l.eth(ann, &l.nest, nil, 900000)
		t.runs, t.ok = true, true
		t.logs = append(l.pq(l.p), wantLog{l.nest, []common.Hash{t3}, []byte{7}}, wantLog{l.nest, []common.Hash{t2}, []byte{8}})
	case "create":
		t = l.eth(ann, nil, deployer(emit(NewAsm(), 9, t2).Bytes(), []byte{0}), 900000)
		t.created = crypto.CreateAddress(ann.Addr, t.eth.Nonce())
		t.runs, t.ok, t.logs = true, true, []wantLog{{t.created, []common.Hash{t2}, []byte{9}}}
	case "revert":
		t = l.eth(ben, &l.rev, nil, 400000)
		t.runs = true
	case "gas":
		t = l.eth(ben, &l.loop, nil, 400000)
		t.runs = true
	case "badcreate":
		t = l.eth(ben, nil, emit(NewAsm(), 1, t1).Push(0).Push(0).Op(0xfd).Bytes(), 900000)
		t.runs = true
	case "send", "sdkcall":
		var m sdk.Msg = &banktypes.MsgSend{FromAddress: cat.Acc().String(), ToAddress: sdk.AccAddress(eve.Bytes()).String(), Amount: Coins("1" + FeeDenom)}
		if op == "sdkcall" {
			m = &evmtypes.MsgCall{Sender: cat.Acc().String(), ContractAddr: l.p.Hex(), Input: "0x", Value: math.ZeroInt()}
		}
		t.bz = l.w.Encode(cat.SignSDK(l.catOpts(m)))
		t.runs, t.ok = true, true
	case "replay": // the last one that was in a block, again
		t = l.sent[len(l.sent)-1]
		t.runs, t.ok, t.logs, t.created = false, false, nil, common.Address{}
	case "poor":
		l.next(dan)
		l.seqs[dan]--
		t = l.wrap(dan, &coretypes.DynamicFeeTx{ChainID: EthChainID(), Nonce: l.seqs[dan], GasFeeCap: big.NewInt(1_000_000_000_000), GasTipCap: big.NewInt(0), Gas: 400000, To: &l.p, Value: big.NewInt(0), Data: []byte{byte(len(l.blocks)), byte(len(l.blocks) >> 8)}})
	case "gap":
		t = l.eth(ann, &l.p, []byte{2}, 400000, func(d *coretypes.DynamicFeeTx) { d.Nonce += 3 })
		l.seqs[ann]--
	case "junk":
		t.bz = []byte{0xff, 0xff, 1}
	case "nokey":
		o := l.catOpts(&banktypes.MsgSend{FromAddress: cat.Acc().String(), ToAddress: sdk.AccAddress(eve.Bytes()).String(), Amount: Coins("1" + FeeDenom)})
		l.seqs[cat]--
		o.Memo = "{}"
		t.bz = cat.SignNoKey(o)
	case "twist": // a well-signed one whose memo names an unknown type
		x := l.eth(ben, &l.p, []byte{3}, 400000)
		l.seqs[ben]--
		bz := strings.Replace(string(x.bz), `{"type":2,`, `{"type":9,`, 1)
		if bz == string(x.bz) {
			panic(HarnessFault("no memo to twist"))
		}
		t.bz = []byte(bz)
	default:
		panic(HarnessFault("op " + op))
	}
	t.op = op
	return t
}

func (l *lab) catOpts(m sdk.Msg) TxOpts {
	a := l.w.App.AccountKeeper.GetAccount(l.ctx(), cat.Acc())
	return TxOpts{Msgs: []sdk.Msg{m}, Gas: 500000, Seq: l.next(cat), AccNum: a.GetAccountNumber()}
}

// admin makes a chain transaction by which the admin has the authority run the messages.
func (l *lab) admin(ms ...sdk.Msg) tx {
	m, err := opchildtypes.NewMsgExecuteMessages(cat.Acc().String(), ms)
	Must(err)
	o := l.catOpts(m)
	o.Gas = 5_000_000
	return tx{op: "admin", bz: l.w.Encode(cat.SignSDK(o)), runs: true, ok: true}
}

// run makes and plays a block of the named transactions.
func (l *lab) run(ops ...string) string {
	var txs []tx
	for _, o := range ops {
		t := l.make(o)
		txs = append(txs, t)
		if t.eth != nil {
			l.sent = append(l.sent, t)
		}
	}
	return l.play(strings.Join(ops, ","), txs)
}

// play runs the block and compares the index with it.
func (l *lab) play(name string, txs []tx) (bad string) {
	h := l.w.App.LastBlockHeight() + 1
	var in [][]byte
	for _, t := range txs {
		in = append(in, t.bz)
	}
	fee0 := l.fee()
	var res *abci.ResponseFinalizeBlock
	var err error
	if p := Try(func() { res, err = l.w.Block(h, in...) }); p != "" {
		return "the node panics: " + p
	}
	if err != nil {
		return "the block fails: " + err.Error()
	}
	b := &block{h: h, ops: name, fee: fee0}
	if f := l.fee(); f.Cmp(fee0) != 0 {
		b.fee = nil
	}
	cumul, log0 := uint64(0), uint(0)
	for i, t := range txs {
		r := res.TxResults[i]
		b.gas += uint64(max(r.GasUsed, 0))
		if t.runs && t.ok != (r.Code == 0) {
			return fmt.Sprintf("%s (%d): code %d: %s", t.op, i, r.Code, r.Log)
		}
		if !t.runs && r.Code == 0 {
			return fmt.Sprintf("%s (%d) is accepted", t.op, i)
		}
		if !t.runs || t.eth == nil {
			continue
		}
		cumul += uint64(r.GasUsed)
		d := done{tx: t, h: h, pos: len(b.list), gas: uint64(r.GasUsed), cumul: cumul, log0: log0}
		log0 += uint(len(t.logs))
		b.list = append(b.list, d)
		l.byHash[t.eth.Hash()] = &d
	}
	l.blocks[h] = b
	if l.blind {
		if l.idx == nil {
			return ""
		}
		l.drain()
		if hd, err := l.idx.BlockHeaderByNumber(l.ctx(), uint64(h)); err == nil {
			b.header, b.hash = hd, hd.Hash()
		}
		if l.after != nil {
			l.after()
		}
		return ""
	}
	return l.check(b, txs)
}

// drain takes what subscribers are told.
func (l *lab) drain() {
	for {
		select {
		case <-l.heads:
		case <-l.logs:
		default:
			return
		}
	}
}

func logText(g *coretypes.Log) string {
	return fmt.Sprintf("block %d %s tx %d %s log %d: %s %v %x", g.BlockNumber, g.BlockHash.Hex(), g.TxIndex, g.TxHash.Hex(), g.Index, g.Address.Hex(), g.Topics, g.Data)
}

// wantLogs are the logs of an executed transaction.
func (l *lab) wantLogs(d *done) (out []*coretypes.Log) {
	for i, x := range d.logs {
		out = append(out, &coretypes.Log{Address: x.addr, Topics: x.topics, Data: x.data, BlockNumber: uint64(d.h), BlockHash: l.blocks[d.h].hash, TxHash: d.eth.Hash(), TxIndex: uint(d.pos), Index: d.log0 + uint(i)})
	}
	return
}

func (l *lab) wantReceipt(d *done) *coretypes.Receipt {
	r := &coretypes.Receipt{Type: d.eth.Type(), CumulativeGasUsed: d.cumul, GasUsed: d.gas, Logs: l.wantLogs(d), TransactionIndex: uint(d.pos), ContractAddress: d.created, EffectiveGasPrice: d.eth.GasPrice()}
	if d.ok {
		r.Status = 1
	}
	r.Bloom = coretypes.CreateBloom(coretypes.Receipts{{Logs: r.Logs}})
	return r
}

func sameLogs(got, want []*coretypes.Log) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d logs instead of %d", len(got), len(want))
	}
	for i := range got {
		if logText(got[i]) != logText(want[i]) {
			return fmt.Sprintf("log %d is [%s] instead of [%s]", i, logText(got[i]), logText(want[i]))
		}
	}
	return ""
}

// one compares what the index says about one executed transaction.
func (l *lab) one(d *done) string {
	ctx := l.ctx()
	b := l.blocks[d.h]
	who := fmt.Sprintf("%s (block %d, %d)", d.op, d.h, d.pos)
	t, err := l.idx.TxByHash(ctx, d.eth.Hash())
	if err != nil {
		return who + ": not found by its hash: " + err.Error()
	}
	if t.Hash != d.eth.Hash() || t.From != d.from || t.BlockHash == nil || *t.BlockHash != b.hash || t.BlockNumber.ToInt().Int64() != d.h || t.TransactionIndex == nil || int(*t.TransactionIndex) != d.pos || t.ToTransaction().Hash() != d.eth.Hash() {
		return fmt.Sprintf("%s: the index has it as %+v", who, t)
	}
	r, err := l.idx.TxReceiptByHash(ctx, d.eth.Hash())
	if err != nil {
		return who + ": no receipt: " + err.Error()
	}
	w := l.wantReceipt(d)
	if r.Status != w.Status || r.Type != w.Type || r.GasUsed != w.GasUsed || r.CumulativeGasUsed != w.CumulativeGasUsed || r.Bloom != w.Bloom || r.TransactionIndex != w.TransactionIndex || r.ContractAddress != w.ContractAddress || r.EffectiveGasPrice.Cmp(w.EffectiveGasPrice) != 0 {
		return fmt.Sprintf("%s: the receipt is %+v instead of %+v", who, r, w)
	}
	if s := sameLogs(r.Logs, w.Logs); s != "" {
		return who + ": receipt: " + s
	}
	ch := comettypes.Tx(d.bz).Hash()
	if x, err := l.idx.CosmosTxHashByTxHash(ctx, d.eth.Hash()); err != nil || string(x) != string(ch) {
		return fmt.Sprintf("%s: its chain hash is %x, %v", who, x, err)
	}
	if x, err := l.idx.TxHashByCosmosTxHash(ctx, ch); err != nil || x != d.eth.Hash() {
		return fmt.Sprintf("%s: the hash of its chain hash is %x, %v", who, x, err)
	}
	return ""
}

// fundDan has cat give dan what his fees cost.
func (l *lab) fundDan() tx {
	m := &banktypes.MsgSend{FromAddress: cat.Acc().String(), ToAddress: dan.Acc().String(), Amount: Coins("1000000000000000000" + FeeDenom)}
	return tx{op: "fund", bz: l.w.Encode(cat.SignSDK(l.catOpts(m))), runs: true, ok: true}
}

// lastPoor is the transaction dan could not pay for.
func (l *lab) lastPoor() tx {
	for i := len(l.sent) - 1; i >= 0; i-- {
		if l.sent[i].op == "poor" {
			t := l.sent[i]
			t.op = "funded"
			return t
		}
	}
	panic(HarnessFault("nothing to fund"))
}

// drainDan has dan send all he has left to cat.
func (l *lab) drainDan() tx {
	a := l.w.App.AccountKeeper.GetAccount(l.ctx(), dan.Acc())
	m := &banktypes.MsgSend{FromAddress: dan.Acc().String(), ToAddress: cat.Acc().String(), Amount: l.w.Bank.GetAllBalances(l.ctx(), dan.Acc())}
	return tx{op: "drain", bz: l.w.Encode(dan.SignSDK(TxOpts{Msgs: []sdk.Msg{m}, Gas: 500000, Seq: l.next(dan), AccNum: a.GetAccountNumber()})), runs: true, ok: true}
}

// node answers for CometBFT.
type node struct {
	client.CometRPC
	l *lab
}

func (n node) Status(context.Context) (*cmtcoretypes.ResultStatus, error) {
	return &cmtcoretypes.ResultStatus{SyncInfo: cmtcoretypes.SyncInfo{LatestBlockHeight: n.l.w.App.LastBlockHeight(), EarliestBlockHeight: 1}}, nil
}

func (l *lab) backend() *backend.JSONRPCBackend {
	b, err := backend.NewJSONRPCBackend(l.w.App, log.NewNopLogger(), server.NewDefaultContext(), client.Context{}.WithClient(node{l: l}).WithTxConfig(TxConfig()), config.DefaultJSONRPCConfig())
	Must(err)
	return b
}

func (l *lab) filters(b *backend.JSONRPCBackend) *filters.FilterAPI {
	return filters.NewFilterAPI(l.w.App, b, log.NewNopLogger())
}

func (l *lab) eth1(b *backend.JSONRPCBackend) *ethns.EthAPI {
	return ethns.NewEthAPI(log.NewNopLogger(), b)
}
