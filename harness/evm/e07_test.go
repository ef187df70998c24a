package evm

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"

	. "github.com/initia-labs/minievm/verifmc/core"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

func quiet(o Op) Op { o.Quiet = true; return o }

func view(name string, args ...any) Op {
	return raw("rawstatic", cosmosAddr, "view "+name, pack(true, name, args...))
}

// readonly runs a program through every read-only door and demands that nothing changes.
func (l *lab) readonly(p *Program) string {
	ctx := Branch(l.base)
	p.Compile()
	for j := range p.Addrs {
		l.w.SetCode(ctx, p.Addrs[j], p.Code[j])
	}
	before := l.w.DigestStores(ctx)
	// static call
	cc := Fresh(ctx, 12_000_000)
	var ret []byte
	var err error
	if pan := Try(func() { ret, err = l.w.K.EVMStaticCall(cc, Caller, ConAddr(0), []byte{0}, nil) }); pan != "" && !strings.Contains(pan, "out of gas") {
		return "static call: " + pan
	}
	if d := l.w.DigestStores(ctx); d != before {
		return "a static call changed chain state"
	}
	if len(cc.EventManager().Events()) != 0 {
		return "a static call emitted events"
	}
	l.c.Outcome(fmt.Sprintf("static err=%v ret=%d", err != nil, len(ret)))
	// contract query, with and without tracing
	qs := evmkeeper.NewQueryServer(l.w.K)
	var first string
	for i, tr := range []*evmtypes.TraceOptions{nil, {WithStorage: true, WithMemory: true, WithStack: true, WithReturnData: true}, nil} {
		qc := Fresh(ctx, 12_000_000)
		var res *evmtypes.QueryCallResponse
		if pan := Try(func() {
			res, err = qs.Call(qc, &evmtypes.QueryCallRequest{Sender: Acc(Caller).String(), ContractAddr: ConAddr(0).Hex(), Input: "0x00", Value: math.NewInt(0), TraceOptions: tr})
		}); pan != "" {
			return "query: " + pan
		}
		if err != nil {
			return "query: " + err.Error()
		}
		if d := l.w.DigestStores(ctx); d != before {
			return fmt.Sprintf("contract query %d changed chain state", i)
		}
		s := fmt.Sprintf("%s|%s|%d|%v", res.Response, res.Error, res.UsedGas, res.Logs)
		if first == "" {
			first = s
		} else if s != first {
			return fmt.Sprintf("the same contract query answered differently: %.200s / %.200s", first, s)
		}
	}
	// creation query
	qc := Fresh(ctx, 12_000_000)
	_, err = qs.Call(qc, &evmtypes.QueryCallRequest{Sender: Acc(Caller).String(), Input: hexutil.Encode(InitCode(&Frame{Ops: []Op{S(0, 1)}})), Value: math.NewInt(1)})
	if err != nil {
		return "query create: " + err.Error()
	}
	if d := l.w.DigestStores(ctx); d != before {
		return "a creation query changed chain state"
	}
	l.c.State(first)
	return ""
}

func TestE07(t *testing.T) {
	Run("E07", "model_checking", func(c *Check) {
		n := 0
		// 1. standard mutators under static frames, against the reference rules
		child1 := &Frame{Ops: []Op{S(0, 1)}}
		std := treeAlpha{
			leaves: []Op{S(0, -1), T(0, -1), L(0), {K: "sd", To: -2}, quiet(cr(0, child1)), quiet(cr2(1, 0, child1))},
			comps: []Op{quiet(Op{K: "static", To: 1}), quiet(Op{K: "call", To: 0}), quiet(Op{K: "call", To: 1, Value: 1}), quiet(Op{K: "delegate", To: 1}), quiet(Op{K: "callcode", To: 1}),
				{K: "static", To: 0}},
			ends: []string{"stop"}, tops: []string{"stop"}}
		Parallel(c, 0, func(i int) *lab { return newLab(c, 2) }, func(yield func(*Program) bool) {
			_ = std.programs(1, Pick(c, 3, 4), 2, true, func(p *Program) bool {
				if !strings.Contains(p.Root.String(), "static") {
					return true
				}
				n++
				return yield(p)
			})
		}, func(l *lab, p *Program) { l.run("std/", []step{{Prog: p}}) })
		c.Note("static_frame_programs", n)

		// 2. system contracts under static frames
		q := func(k string, o Op) Op { o.K = k; o.Quiet = true; return o }
		sys := treeAlpha{
			leaves: []Op{q("rawstatic", opReg()), q("rawdelegate", opReg()), q("rawstatic", opStore("X")), q("rawdelegate", opStore("X")), q("rawstatic", opSend("A", "X", 30)), q("rawdelegate", opSend("B", "X", 30)),
				q("rawcall", opReg()), q("rawcall", opSend("A", "X", 30)), q("rawcall", opStore("H")), opIsStore("H")},
			comps: []Op{quiet(Op{K: "static", To: 1}), {K: "static", To: 0}, quiet(Op{K: "call", To: 0}), quiet(Op{K: "delegate", To: 1})},
			ends:  []string{"stop"}, tops: []string{"stop"}}
		m := 0
		Parallel(c, 0, func(i int) *lab { return newLab(c, 2) }, func(yield func(*Program) bool) {
			_ = sys.programs(1, Pick(c, 3, 4), 2, false, func(p *Program) bool {
				if !strings.Contains(p.Root.String(), "static") {
					return true
				}
				m++
				return yield(p)
			})
		}, func(l *lab, p *Program) {
			name := p.Root.String()
			l.c.Exec(name)
			ps := []*Program{p}
			var sig string
			d := l.sysHistory(ps, &sig)
			if d == "" {
				l.c.Validated(1)
				return
			}
			var s2 string
			if l.sysHistoryM(ps, &s2, true) == "" {
				l.c.Outcome("known finding")
				l.c.Violate("system-contract-called-inside-static-frame", name+" => "+d, name, func() string { var s string; return l.sysHistory(ps, &s) })
				return
			}
			l.c.Violate("sys/"+sig, name+" => "+d, name, func() string { var s string; return l.sysHistory(ps, &s) })
		})
		c.Note("system_contract_programs", m)

		// 3. every read-only door with mutating programs
		any := treeAlpha{
			leaves: []Op{S(0, -1), T(0, -1), L(0), {K: "sd", To: -2}, cr2(1, 1, child1), opReg(), opStore("H"), opSend("A", "X", 30)},
			comps:  []Op{{K: "call", To: 1, Value: 2}, {K: "call", To: 0}, {K: "delegate", To: 1}, {K: "static", To: 1}},
			ends:   []string{"stop", "revert"}, tops: []string{"stop", "revert", "invalid"}}
		quietly := treeAlpha{
			leaves: []Op{quiet(opReg()), quiet(opStore("H")), quiet(opSend("A", "X", 30)), quiet(view("is_blocked_address", Caller)), quiet(view("to_denom", common.Address{1})), quiet(opIsStore("H"))},
			comps:  []Op{quiet(Op{K: "call", To: 1}), quiet(Op{K: "static", To: 1}), quiet(Op{K: "delegate", To: 1})},
			ends:   []string{"stop"}, tops: []string{"stop"}}
		r := 0
		Parallel(c, 0, func(i int) *lab { return newLab(c, 2) }, func(yield func(*Program) bool) {
			one := func(p *Program) bool { r++; return yield(p) }
			_ = any.programs(1, 2, 2, false, one) && quietly.programs(1, Pick(c, 2, 3), 2, false, one) && (!c.Thorough() || any.programs(3, 3, 2, false, one))
		}, func(l *lab, p *Program) {
			name := "read-only door: " + p.Root.String()
			l.c.Exec(name)
			l.c.Trans(5)
			if d := l.readonly(p); d != "" {
				l.c.Violate("door/"+strings.SplitN(d, ":", 2)[0], name+" => "+d, name, func() string { return l.readonly(p) })
				return
			}
			l.c.Validated(1)
		})
		c.Note("read_only_door_programs", r)

		// 4. system-contract views inside ordinary executions
		l := newLab(c, 2)
		fee := l.fee
		views := []Op{
			raw("rawcall", cosmosAddr, "view", pack(true, "is_blocked_address", Caller)), raw("rawcall", cosmosAddr, "view", pack(true, "is_module_address", Caller)),
			raw("rawcall", cosmosAddr, "view", pack(true, "to_cosmos_address", Caller)), raw("rawcall", cosmosAddr, "view", pack(true, "to_evm_address", Acc(Caller).String())),
			raw("rawcall", cosmosAddr, "view", pack(true, "to_evm_address", sdk.AccAddress(bytes.Repeat([]byte{7}, 32)).String())),
			raw("rawcall", cosmosAddr, "view", pack(true, "to_denom", fee)), raw("rawcall", cosmosAddr, "view", pack(true, "to_denom", common.Address{9})),
			raw("rawcall", cosmosAddr, "view", pack(true, "to_erc20", FeeDenom)), raw("rawcall", cosmosAddr, "view", pack(true, "to_erc20", "nothing")),
			raw("rawcall", cosmosAddr, "view", pack(true, "query_cosmos", "/connect.oracle.v2.Query/GetAllCurrencyPairs", "{}")),
			opIsStore("X"), opIsStore("H")}
		Sequences(len(views), 1, Pick(c, 2, 3), func(seq []int) bool {
			f := &Frame{}
			name := ""
			for _, i := range seq {
				f.Ops = append(f.Ops, views[i])
				name += fmt.Sprintf("view%d ", i)
			}
			c.Exec(name)
			ctx := Branch(l.base)
			p := &Program{Root: f, NCon: 1}
			p.Compile()
			l.w.SetCode(ctx, p.Addrs[0], p.Code[0])
			// the first plain call of any precompile gives its address an (empty) account record, as the EVM asks
			l.w.EnsureAcc(ctx, cosmosAddr)
			l.w.EnsureAcc(ctx, registryAddr)
			before := l.w.DigestStores(ctx)
			to := ConAddr(0)
			res := l.w.Exec(ctx, Caller, &to, []byte{0}, 0, 12_000_000, nil)
			if !res.OK {
				c.Violate("view-execution-failed", name+res.Err, name, nil)
			}
			if l.w.DigestStores(ctx) != before {
				c.Violate("view-changed-state", name, name, nil)
			}
			c.Validated(1)
			return !c.Expired()
		})

		// 5. simulation and gas estimation of transactions
		simulate(c)
		c.Note("alphabet", "static frames holding every state-changing instruction and every system-contract method (by call, static and delegate call), nested under call/delegatecall/callcode/staticcall; mutating programs through the static-call, contract-query (with and without tracing) and creation-query doors; sequences of system-contract views; sequences of simulated and checked transactions")
		c.Assume("chain state = every committed key-value store; the reference decides which frames fail under a static call")
	})
}

// simulate runs every short sequence of simulations; neither the check state nor the block state may change.
func simulate(c *Check) {
	k := NewKey("sim")
	w := NewApp(WorldCfg{})
	w.StartBlock(2, GenesisTime)
	ctx := w.Ctx()
	w.FundAcc(ctx, k.Addr, FeeDenom, 1_000_000_000)
	w.SetCode(ctx, ConAddr(0), func() []byte {
		p := &Program{Root: &Frame{Ops: []Op{S(0, 5), L(0), opSend("A", "X", 1)}}, NCon: 1}
		p.Compile()
		return p.Code[0]
	}())
	w.Fund(ctx, ConAddr(0), FeeDenom, 100)
	w.EnsureAcc(ctx, ExtAddr(0))
	num := w.App.AccountKeeper.GetAccount(ctx, k.Acc()).GetAccountNumber()
	w.CheckState()
	to := ConAddr(0)
	mk := func(msgs ...sdk.Msg) []byte {
		return w.Encode(k.SignSDK(TxOpts{Msgs: msgs, Gas: 3_000_000, AccNum: num, Fee: sdk.NewCoins(sdk.NewInt64Coin(FeeDenom, 1000))}))
	}
	eth := func(data coretypes.TxData) []byte {
		t, err := w.EthToSDK(ctx, k.SignEth(data))
		Must(err)
		return w.Encode(t)
	}
	ten18 := math.NewIntWithDecimal(1, 12).BigInt()
	txs := [][]byte{
		mk(&evmtypes.MsgCall{Sender: k.Acc().String(), ContractAddr: to.Hex(), Input: "0x00", Value: math.ZeroInt()}),
		mk(&evmtypes.MsgCreate{Sender: k.Acc().String(), Code: hexutil.Encode(InitCode(&Frame{Ops: []Op{S(0, 1)}})), Value: math.NewInt(3)}),
		mk(&evmtypes.MsgCreate2{Sender: k.Acc().String(), Code: hexutil.Encode(InitCode(&Frame{Ops: []Op{S(0, 1)}})), Value: math.NewInt(3), Salt: 3}),
		mk(&banktypes.MsgSend{FromAddress: k.Acc().String(), ToAddress: Acc(ExtAddr(0)).String(), Amount: sdk.NewCoins(sdk.NewInt64Coin(FeeDenom, 50))}),
		mk(&banktypes.MsgSend{FromAddress: k.Acc().String(), ToAddress: Acc(Addr("new")).String(), Amount: sdk.NewCoins(sdk.NewInt64Coin(FeeDenom, 50_000_000_000))}),
		mk(&evmtypes.MsgCall{Sender: k.Acc().String(), ContractAddr: to.Hex(), Input: "0x00", Value: math.NewInt(2)}, &banktypes.MsgSend{FromAddress: k.Acc().String(), ToAddress: Acc(ExtAddr(0)).String(), Amount: sdk.NewCoins(sdk.NewInt64Coin(FeeDenom, 50))}),
		eth(&coretypes.DynamicFeeTx{ChainID: EthChainID(), Gas: 3_000_000, GasFeeCap: ten18, GasTipCap: ten18, To: &to, Data: []byte{0}}),
		eth(&coretypes.LegacyTx{Gas: 3_000_000, GasPrice: ten18, Data: InitCode(&Frame{Ops: []Op{S(0, 1)}})}),
	}
	first := make([]string, len(txs))
	blk := w.DigestStores(ctx)
	chk := w.DigestStores(w.App.GetContextForCheckTx(nil))
	runs := 0
	Sequences(len(txs), 1, Pick(c, 2, 3), func(seq []int) bool {
		name := fmt.Sprintf("simulate %v", seq)
		c.Exec(name)
		for _, i := range seq {
			runs++
			c.Trans(1)
			out := ""
			if p := Try(func() {
				gi, res, err := w.App.Simulate(txs[i])
				out = fmt.Sprintf("%v", err)
				if err == nil {
					out = fmt.Sprintf("%d %x", gi.GasUsed, res.Data)
				}
			}); p != "" {
				out = p
			}
			if first[i] == "" {
				first[i] = out
				c.Outcome("simulate: " + out)
			} else if out != first[i] {
				c.Violate("simulation-not-repeatable", fmt.Sprintf("%s: transaction %d gave %s, before %s", name, i, out, first[i]), name, nil)
				return false
			}
		}
		if w.DigestStores(ctx) != blk || w.DigestStores(w.App.GetContextForCheckTx(nil)) != chk {
			c.Violate("simulation-changed-state", name, name, nil)
			return false
		}
		c.Validated(1)
		return !c.Expired()
	})
	c.Note("simulations", runs)
}
