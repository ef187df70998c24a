// Package det has pairs of nodes execute the same blocks.
package det

import (
	"context"
	"fmt"
	"maps"
	"math/big"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	ethfilters "github.com/ethereum/go-ethereum/eth/filters"
	"github.com/ethereum/go-ethereum/rpc"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/indexer"
	"github.com/initia-labs/minievm/jsonrpc/backend"
	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20_factory"
	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
	"github.com/initia-labs/minievm/verifmc/core/vdet"
)

var (
	cosmosAddr = common.HexToAddress("0xf1")
	eCos, eFac *abi.ABI
)

func init() {
	eCos, _ = i_cosmos.ICosmosMetaData.GetAbi()
	eFac, _ = erc20_factory.Erc20FactoryMetaData.GetAbi()
}

// pair is two nodes of one chain: a does nothing but execute blocks, b serves its users too.
type pair struct {
	a, b   *lab
	na, nb *vdet.Node
	env    common.Address
	trail  []string
	bkd    *backend.JSONRPCBackend
}

func (p *pair) backend() *backend.JSONRPCBackend {
	if p.bkd == nil {
		p.bkd = p.b.backend()
	}
	return p.bkd
}

func cfgOf(opts AppOpts) WorldCfg {
	cfg := worldCfg()
	cfg.Opts = opts
	cfg.DB, cfg.IndexDB = dbm.NewMemDB(), dbm.NewMemDB()
	old := cfg.MutGenesis
	cfg.MutGenesis = func(app *minievmapp.MinitiaApp, gs minievmapp.GenesisState) {
		old(app, gs)
		var op opchildtypes.GenesisState
		app.AppCodec().MustUnmarshalJSON(gs[opchildtypes.ModuleName], &op)
		op.Params.BridgeExecutors = []string{cat.Acc().String()}
		gs[opchildtypes.ModuleName] = app.AppCodec().MustMarshalJSON(&op)
	}
	return cfg
}

func newPair() *pair {
	p := &pair{na: &vdet.Node{}, nb: &vdet.Node{Desc: true, Skew: 1000 * time.Hour}}
	vdet.As(p.na, func() { p.a = labWith(cfgOf(AppOpts{"indexer.enable": false}), true) })
	vdet.As(p.nb, func() {
		p.b = labWith(cfgOf(AppOpts{"indexer.enable": true, "indexer.cache-capacity": 1, "indexer.backend": map[string]any{}}), true)
	})
	t := p.a.eth(ann, nil, deployer(nil, NewAsm().Push(1).Op(0x40).Push(0).Op(0x52, 0x42).Push(32).Op(0x52, 0x48).Push(64).Op(0x52, 0x44).Push(96).Op(0x52, 0x45).Push(128).Op(0x52, 0x46).Push(160).Op(0x52, 0x5a).Push(192).Op(0x52, 0x41).Push(224).Op(0x52).Push(256).Push(0).Op(0xf3).Bytes()), 3_000_000)
	p.env = createdBy(t)
	p.a.sent = append(p.a.sent, t)
	if bad := p.block("env", []tx{t}, nil); bad != "" {
		panic(HarnessFault(bad))
	}
	return p
}

func createdBy(t tx) common.Address { return crypto.CreateAddress(ann.Addr, t.eth.Nonce()) }

var detOps = []string{"plain", "value", "p", "nest", "create", "revert", "gas", "badcreate", "send", "sdkcall", "replay", "poor", "gap", "junk", "store", "legacy", "list",
	"cosmos", "cosmosfail", "query", "token", "todenom", "env", "destroy", "eips", "pays", "multi", "multifail", "deposit", "withdraw"}

func pack(fn string, args ...any) []byte {
	bz, err := eCos.Pack(fn, args...)
	Must(err)
	return bz
}

func bankSend(from, to sdk.AccAddress, n int) string {
	return fmt.Sprintf(`{"@type":"/cosmos.bank.v1beta1.MsgSend","from_address":"%s","to_address":"%s","amount":[{"denom":"%s","amount":"%d"}]}`, from, to, FeeDenom, n)
}

func (p *pair) op(name string) tx {
	l := p.a
	var t tx
	switch name {
	case "cosmos", "cosmosfail":
		to := Acc(eve)
		from := ben.Acc()
		if name == "cosmosfail" {
			t = l.eth(ben, &cosmosAddr, pack("execute_cosmos", strings.Replace(bankSend(from, to, 3), FeeDenom, "nothere", 1)), 900000)
		} else {
			t = l.eth(ben, &cosmosAddr, pack("execute_cosmos", bankSend(from, to, 3)), 900000)
		}
	case "query":
		t = l.eth(ben, &cosmosAddr, pack("query_cosmos", "/connect.oracle.v2.Query/GetAllCurrencyPairs", "{}"), 900000)
	case "token":
		fac, err := l.w.K.GetERC20FactoryAddr(l.ctx())
		Must(err)
		in, err := eFac.Pack("createERC20", "det", "DET", uint8(6))
		Must(err)
		t = l.eth(ann, &fac, in, 5_000_000)
	case "todenom":
		t = l.eth(ann, &cosmosAddr, pack("to_denom", l.token()), 900000)
	case "env":
		t = l.eth(ann, &p.env, nil, 900000)
	case "destroy":
		t = l.eth(ann, nil, NewAsm().PushAddr(eve).Op(0xff).Bytes(), 900000, func(d *coretypes.DynamicFeeTx) { d.Value = big.NewInt(5) })
	case "eips":
		ps, err := l.w.K.Params.Get(l.ctx())
		Must(err)
		if len(ps.ExtraEIPs) == 0 {
			ps.ExtraEIPs = []int64{1344}
		} else {
			ps.ExtraEIPs = nil
		}
		t = l.admin(&evmtypes.MsgUpdateParams{Authority: l.w.App.BankKeeper.GetAuthority(), Params: ps})
	case "pays":
		t = l.eth(ben, &p.env, nil, 900000, func(d *coretypes.DynamicFeeTx) { d.GasFeeCap = big.NewInt(1_000_000_000) })
	case "multi", "multifail":
		n := int64(1)
		if name == "multifail" {
			n = 1 << 62
		}
		o := l.catOpts(&evmtypes.MsgCall{Sender: cat.Acc().String(), ContractAddr: l.store.Hex(), Input: "0x", Value: math.ZeroInt()})
		o.Msgs = append(o.Msgs, &banktypes.MsgSend{FromAddress: cat.Acc().String(), ToAddress: Acc(eve).String(), Amount: sdk.NewCoins(sdk.NewCoin(FeeDenom, math.NewInt(n).MulRaw(n)))}, &evmtypes.MsgCreate{Sender: cat.Acc().String(), Code: hexutil.Encode(deployer(nil, []byte{0})), Value: math.ZeroInt()})
		o.Gas = 3_000_000
		t.bz = l.w.Encode(cat.SignSDK(o))
	case "deposit":
		n, err := l.w.App.OPChildKeeper.GetNextL1Sequence(l.ctx())
		Must(err)
		o := l.catOpts(&opchildtypes.MsgFinalizeTokenDeposit{Sender: cat.Acc().String(), From: "init1l1", To: cat.Acc().String(), Amount: sdk.NewInt64Coin("l2/"+strings.Repeat("ab", 32), 5), Sequence: n, Height: 1, BaseDenom: "uinit"})
		o.Gas = 3_000_000
		t.bz = l.w.Encode(cat.SignSDK(o))
	case "withdraw":
		o := l.catOpts(opchildtypes.NewMsgInitiateTokenWithdrawal(cat.Acc().String(), "init1l1", sdk.NewInt64Coin("l2/"+strings.Repeat("ab", 32), 2)))
		o.Gas = 3_000_000
		t.bz = l.w.Encode(cat.SignSDK(o))
	case "around":
	default:
		return l.make(name)
	}
	t.op = name
	return t
}

// ops makes the transactions of a block. Those that depend on state they change are not made twice.
func (p *pair) opsOf(names []string) (txs []tx) {
	for i, n := range names {
		t := p.op(n)
		if i > 0 && names[0] == n && n == "deposit" {
			t = txs[0]
		}
		if t.eth != nil {
			p.a.sent = append(p.a.sent, t)
		}
		txs = append(txs, t)
	}
	return
}

// act is something that happens to b at a place of a block.
type act struct {
	what  string
	where string // before, begin, middle, end, uncommitted, after
}

func (x act) String() string { return x.what + " " + x.where }

// disturbances; those served while a block is executed come first.
var during = []string{"queries", "calls", "simulate", "rpc"}
var between = append(append([]string{}, during...), "check", "propose")

func acts() (out []act) {
	for _, d := range during {
		for _, w := range []string{"begin", "middle", "end"} {
			out = append(out, act{d, w})
		}
	}
	for _, d := range between {
		for _, w := range []string{"before", "uncommitted", "after"} {
			if d == "propose" && w == "uncommitted" {
				continue
			}
			out = append(out, act{d, w})
		}
	}
	return append(out, act{"restart", "before"})
}

// some are the disturbances of a block of two, together.
func some() (out []act) {
	for _, a := range acts() {
		if a.what != "restart" && (a.where == "middle" || a.where == "before" || a.where == "uncommitted") {
			out = append(out, a)
		}
	}
	return
}

// block has both execute the block and compares.
func (p *pair) block(name string, txs []tx, as []act) (bad string) {
	defer func() {
		if bad == "" {
			p.trail = append(p.trail, name)
		}
	}()
	h := p.a.w.App.LastBlockHeight() + 1
	var in [][]byte
	for _, t := range txs {
		in = append(in, t.bz)
	}
	count := 0
	run := func(l *lab, n *vdet.Node, at func(where string)) (out string) {
		vdet.As(n, func() {
			if q := Try(func() {
				at("before")
				w := l.w // it may have been restarted
				res, err := w.App.FinalizeBlock(&abci.RequestFinalizeBlock{Height: h, Time: GenesisTime.Add(time.Duration(h) * time.Second), Hash: BlockHash(h), Txs: in})
				if err != nil {
					out = "the block fails: " + err.Error()
					return
				}
				at("uncommitted")
				_, err = w.App.Commit()
				if err != nil {
					out = "the commit fails: " + err.Error()
					return
				}
				out = fmt.Sprintf("%s\nhash %x", res.String(), w.App.LastCommitID().Hash)
				at("after")
			}); q != "" {
				out = "panics: " + q
			}
		})
		return
	}
	p.na.Hook = func(string) { count++ }
	x := run(p.a, p.na, func(string) {})
	k := 0
	busy := false
	at := func(where string) {
		for _, s := range as {
			if s.where == where {
				busy = true
				p.disturb(s.what, in)
				busy = false
			}
		}
	}
	last := ""
	p.nb.Hook = func(string) {
		if busy || last != "before" {
			return
		}
		k++
		switch {
		case k == 1:
			at("begin")
		case k == count/2:
			at("middle")
		case k == count:
			at("end")
		}
	}
	y := run(p.b, p.nb, func(w string) { at(w); last = w })
	p.b.drain()
	if x != y {
		return fmt.Sprintf("[%s] the undisturbed node says %s / the other says %s", name, firstDiff(x, y, 250), firstDiff(y, x, 250))
	}
	return ""
}

// firstDiff is what a says where it starts to differ.
func firstDiff(a, b string, n int) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	i = max(0, i-40)
	return fmt.Sprintf("...%.*q", n, a[min(i, len(a)):])
}

func (p *pair) query(path string, req interface{ Marshal() ([]byte, error) }) {
	bz, err := req.Marshal()
	Must(err)
	_, _ = p.b.w.App.Query(context.Background(), &abci.RequestQuery{Path: path, Data: bz})
}

// disturb has b serve its users.
func (p *pair) disturb(what string, in [][]byte) {
	l := p.b
	switch what {
	case "queries":
		p.query("/cosmos.bank.v1beta1.Query/AllBalances", &banktypes.QueryAllBalancesRequest{Address: ann.Acc().String()})
		p.query("/cosmos.bank.v1beta1.Query/Balance", &banktypes.QueryBalanceRequest{Address: Acc(eve).String(), Denom: FeeDenom})
		p.query("/cosmos.bank.v1beta1.Query/TotalSupply", &banktypes.QueryTotalSupplyRequest{})
		p.query("/minievm.evm.v1.Query/Call", &evmtypes.QueryCallRequest{Sender: ann.Acc().String(), ContractAddr: l.store.Hex(), Input: "0x", TraceOptions: &evmtypes.TraceOptions{}})
		p.query("/minievm.evm.v1.Query/Call", &evmtypes.QueryCallRequest{Sender: ben.Acc().String(), ContractAddr: cosmosAddr.Hex(), Input: hexutil.Encode(pack("execute_cosmos", bankSend(ben.Acc(), Acc(eve), 1)))})
		p.query("/minievm.evm.v1.Query/Call", &evmtypes.QueryCallRequest{Sender: ben.Acc().String(), ContractAddr: "", Input: hexutil.Encode(deployer(nil, []byte{0}))})
		p.query("/minievm.evm.v1.Query/Params", &evmtypes.QueryParamsRequest{})
		p.query("/minievm.evm.v1.Query/Denom", &evmtypes.QueryDenomRequest{ContractAddr: p.env.Hex()})
		p.query("/minievm.evm.v1.Query/ContractAddrByDenom", &evmtypes.QueryContractAddrByDenomRequest{Denom: FeeDenom})
	case "calls":
		api := l.eth1(p.backend())
		for _, to := range []common.Address{l.store, p.env, l.nest, l.rev, cosmosAddr} {
			data := hexutil.Bytes{}
			if to == cosmosAddr {
				data = pack("query_cosmos", "/connect.oracle.v2.Query/GetAllCurrencyPairs", "{}")
			}
			args := rpctypes.TransactionArgs{From: &ann.Addr, To: &to, Data: &data}
			_, _ = api.Call(args, nil, nil, nil)
			if to != l.rev {
				_, _ = api.EstimateGas(args, nil, nil)
			}
		}
	case "simulate":
		for _, bz := range in {
			_, _, _ = l.w.App.Simulate(bz)
			_, _ = l.w.App.Query(context.Background(), &abci.RequestQuery{Path: "/app/simulate", Data: bz})
		}
	case "rpc":
		b := p.backend()
		api := l.eth1(b)
		for _, n := range []rpc.BlockNumber{-2, 0, 1} {
			_, _ = api.GetBlockByNumber(n, true)
			s := rpc.BlockNumberOrHashWithNumber(n)
			_, _ = api.GetBalance(ann.Addr, s)
			_, _ = api.GetTransactionCount(ann.Addr, s)
			_, _ = api.GetCode(l.p, s)
			_, _ = api.GetStorageAt(l.store, "0x0", s)
			_, _ = api.GetBlockReceipts(context.Background(), s)
		}
		_, _ = api.FeeHistory(2, -2, []float64{50})
		_, _ = l.filters(b).GetLogs(context.Background(), ethfilters.FilterCriteria{})
		_, _ = api.GasPrice()
	case "check":
		for _, k := range []abci.CheckTxType{abci.CheckTxType_New, abci.CheckTxType_Recheck} {
			for _, bz := range in {
				_, _ = l.w.App.CheckTx(&abci.RequestCheckTx{Tx: bz, Type: k})
			}
		}
	case "propose":
		h := l.w.App.LastBlockHeight() + 1
		t := GenesisTime.Add(time.Duration(h) * time.Second)
		r, err := l.w.App.PrepareProposal(&abci.RequestPrepareProposal{Height: h, Time: t, MaxTxBytes: 1 << 20, Txs: in})
		if err == nil {
			_, _ = l.w.App.ProcessProposal(&abci.RequestProcessProposal{Height: h, Time: t, Txs: r.Txs, Hash: BlockHash(h)})
		}
		_, _ = l.w.App.ProcessProposal(&abci.RequestProcessProposal{Height: h, Time: t, Txs: in, Hash: BlockHash(h)})
	case "restart":
		p.restart()
	default:
		panic(HarnessFault(what))
	}
}

func (p *pair) restart() {
	l := p.b
	cfg := cfgOf(AppOpts{"indexer.enable": true, "indexer.cache-capacity": 1, "indexer.backend": map[string]any{}})
	cfg.DB, cfg.IndexDB, cfg.Empty = l.w.DB, l.w.IdxDB, true
	l.w = NewApp(cfg)
	p.bkd = nil
	l.idx = l.w.App.EVMIndexer().(*indexer.EVMIndexerImpl)
	l.heads, l.logs, _ = l.idx.Subscribe()
}

// delivered runs the transaction on block state of b that is thrown away, b serving its users at the k-th
// function.
func (p *pair) delivered(bz []byte, k int, what string) (out string, points int) {
	w := p.b.w
	h := w.App.LastBlockHeight() + 1
	w.StartBlock(h, GenesisTime.Add(time.Duration(h)*time.Second))
	defer w.DropBlock()
	i, busy := 0, false
	p.nb.Hook = func(string) {
		if busy {
			return
		}
		i++
		if i == k {
			busy = true
			p.disturb(what, [][]byte{bz})
			busy = false
		}
	}
	ctx := w.Ctx()
	vdet.As(p.nb, func() {
		if q := Try(func() {
			if bz != nil {
				out += w.DeliverRaw(ctx, bz).String()
				return
			}
			// what FinalizeBlock does around the transactions
			p, err := w.App.PreBlocker(ctx, &abci.RequestFinalizeBlock{Height: h})
			out += fmt.Sprintf("%v %v", p, err)
			b, err := w.App.BeginBlocker(ctx)
			out += fmt.Sprintf("%v %v", b, err)
			e, err := w.App.EndBlocker(ctx)
			out += fmt.Sprintf("%v %v", e, err)
		}); q != "" {
			out += " panics: " + q
		}
	})
	p.nb.Hook = nil
	return out + " state " + w.DigestStores(ctx), i
}

// points has b serve its users at every function entered while the transaction is executed.
func (p *pair) points(c *Check, name string, t tx, only map[string]int) (bad string, at map[string]int) {
	want, n := p.delivered(t.bz, 0, "")
	if again, m := p.delivered(t.bz, 0, ""); again != want || m != n {
		return fmt.Sprintf("[%s] executed twice from the same state: %s / %s", name, firstDiff(want, again, 500), firstDiff(again, want, 500)), nil
	}
	for _, what := range during {
		for k := 1; k <= n; k++ {
			if only != nil && only[what] != k {
				continue
			}
			if only == nil && c.Expired() {
				return "", nil
			}
			got, _ := p.delivered(t.bz, k, what)
			c.Trans(1)
			if got != want {
				return fmt.Sprintf("[%s] with %s at the %d. of %d functions: %s instead of %s", name, what, k, n, firstDiff(got, want, 500), firstDiff(want, got, 500)), map[string]int{what: k}
			}
		}
	}
	c.Outcome(fmt.Sprintf("%s: %d points", name, n))
	return "", nil
}

func TestD01(t *testing.T) {
	Run("D01", "bounded", func(c *Check) {
		type job struct {
			names  []string
			as     []act
			points string
		}
		all := acts()
		for _, n := range detOps {
			c.Sample(n)
		}
		c.Assume("what a node serves while it executes a block runs at the start of a function of the consensus code, as one step; finer interleavings are not explored")
		c.Assume("maps are walked in ascending order on one node and in descending order on the other, whose clock is 1000 hours ahead; other sources of chance (random numbers, addresses) differ by themselves")
		Parallel(c, 0, func(int) *pair { return newPair() }, func(yield func(job) bool) {
			for _, n := range append([]string{"around"}, detOps...) {
				if !yield(job{points: n}) {
					return
				}
			}
			for _, n := range detOps {
				for _, a := range all {
					if !yield(job{names: []string{n}, as: []act{a}}) {
						return
					}
				}
			}
			Sequences(len(detOps), 2, 2, func(s []int) bool {
				ns := []string{detOps[s[0]], detOps[s[1]]}
				if !c.Thorough() {
					return yield(job{names: ns, as: some()})
				}
				for _, a := range append([]act{{}}, all...) {
					if a.what == "restart" {
						continue
					}
					if !yield(job{names: ns, as: []act{a}}) {
						return false
					}
				}
				return true
			})
		}, func(p *pair, j job) {
			if j.points != "" {
				name := "points " + j.points
				c.Exec(name)
				seqs, sent := maps.Clone(p.a.seqs), p.a.sent
				bad, at := p.points(c, j.points, p.opsOf([]string{j.points})[0], nil)
				p.a.seqs, p.a.sent = seqs, sent
				if bad != "" {
					c.Violate("D01|"+name, bad, j.points, func() string {
						p := newPair()
						bad, _ := p.points(c, j.points, p.opsOf([]string{j.points})[0], at)
						return bad
					})
				}
				return
			}
			name := fmt.Sprintf("%s with %v", strings.Join(j.names, ","), j.as)
			if len(j.as) > 1 {
				name = strings.Join(j.names, ",") + " with everything"
			}
			c.Exec(name)
			bad := p.block(name, p.opsOf(j.names), j.as)
			c.Trans(1)
			c.State(fmt.Sprintf("%x", p.a.w.App.LastCommitID().Hash))
			if bad == "" {
				c.Validated(1)
				return
			}
			c.Violate("D01|"+strings.Join(j.names, ",")+"|"+fmt.Sprint(len(j.as)), bad, j, func() string {
				p := newPair()
				return p.block(name, p.opsOf(j.names), j.as)
			})
			*p = *newPair()
		})
	})
}

func (l *lab) check(*block, []tx) string { return "" }
