package evm

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/ethereum/go-ethereum/common"

	. "github.com/initia-labs/minievm/verifmc/core"
	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	"github.com/initia-labs/minievm/x/evm/contracts/i_erc20_registry"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// ---- system-contract actions. Sem is the meaning, read by the model below.

var (
	cosmosAddr   = common.HexToAddress("0xf1")
	registryAddr = common.HexToAddress("0xf2")
)

func pack(cosmos bool, name string, args ...any) []byte {
	m := i_erc20_registry.IErc20RegistryMetaData
	if cosmos {
		m = i_cosmos.ICosmosMetaData
	}
	abi, err := m.GetAbi()
	Must(err)
	bz, err := abi.Pack(name, args...)
	Must(err)
	return bz
}

// parties: A B = contracts, O = origin, X Y = plain accounts, H = an address without an account
func party(s string) common.Address {
	switch s {
	case "A":
		return ConAddr(0)
	case "B":
		return ConAddr(1)
	case "O":
		return Caller
	case "X":
		return ExtAddr(0)
	case "Y":
		return ExtAddr(1)
	case "H":
		return Addr("holder-without-account")
	}
	panic(HarnessFault("party " + s))
}

func raw(kind string, addr common.Address, sem string, in []byte) Op {
	return Op{K: kind, Addr: addr, Sem: sem, Raw: in, Note: sem}
}
func opReg() Op { return raw("rawcall", registryAddr, "reg", pack(false, "register_erc20")) }
func opStore(p string) Op {
	return raw("rawcall", registryAddr, "store "+p, pack(false, "register_erc20_store", party(p)))
}
func opIsStore(p string) Op {
	return raw("rawcall", registryAddr, "isstore "+p, pack(false, "is_erc20_store_registered", party(p)))
}
func sendJSON(from, to string, amt int) string {
	return fmt.Sprintf(`{"@type":"/cosmos.bank.v1beta1.MsgSend","from_address":"%s","to_address":"%s","amount":[{"denom":"%s","amount":"%d"}]}`, Acc(party(from)), Acc(party(to)), FeeDenom, amt)
}
func opSend(from, to string, amt int) Op {
	return raw("rawcall", cosmosAddr, fmt.Sprintf("send %s %s %d", from, to, amt), pack(true, "execute_cosmos", sendJSON(from, to, amt)))
}

// opDoomed queues a message its signer may queue but whose stateless validation fails when it is run.
func opDoomed(from string) Op {
	return raw("rawcall", cosmosAddr, "doomed "+from, pack(true, "execute_cosmos", fmt.Sprintf(`{"@type":"/ibc.applications.transfer.v1.MsgTransfer","source_port":"transfer","source_channel":"channel-0","token":{"denom":"%s","amount":"1"},"sender":"%s","receiver":"","timeout_height":{"revision_number":"1","revision_height":"1000"},"timeout_timestamp":"0","memo":""}`, FeeDenom, Acc(party(from)))))
}

// opMsgCall queues an EVM call of a frame of contract `to`, sent by `from`.
func opMsgCall(from string, to int, f *Frame) Op {
	return Op{K: "rawcall", Addr: cosmosAddr, Sem: "msgcall " + from, Note: "queue-call by " + from, To: to, Sub: f, RawFn: func(fid int) []byte {
		bz, _ := json.Marshal(map[string]any{"@type": "/minievm.evm.v1.MsgCall", "sender": Acc(party(from)).String(), "contract_addr": ConAddr(to).Hex(), "input": fmt.Sprintf("0x%02x", fid), "value": "0", "access_list": []any{}})
		return pack(true, "execute_cosmos", string(bz))
	}}
}

// ---- model

type qmsg struct {
	op   *Op
	sem  []string
	self string
}

type sysState struct {
	bal   map[string]int64
	reg   map[string]bool
	store map[string]bool // "contract holder"
	acc   map[string]bool
	slot  map[string]int // contract slot0
	msgs  []qmsg
}

func (s *sysState) copy() *sysState {
	n := &sysState{bal: map[string]int64{}, reg: map[string]bool{}, store: map[string]bool{}, acc: map[string]bool{}, slot: map[string]int{}}
	for k, v := range s.bal {
		n.bal[k] = v
	}
	for k, v := range s.reg {
		n.reg[k] = v
	}
	for k, v := range s.store {
		n.store[k] = v
	}
	for k, v := range s.acc {
		n.acc[k] = v
	}
	for k, v := range s.slot {
		n.slot[k] = v
	}
	n.msgs = append([]qmsg{}, s.msgs...)
	return n
}

func (s *sysState) String() string {
	var out []string
	for k, v := range s.bal {
		out = append(out, fmt.Sprintf("bal %s=%d", k, v))
	}
	for k, v := range s.reg {
		if v {
			out = append(out, "reg "+k)
		}
	}
	for k, v := range s.store {
		if v {
			out = append(out, "store "+k)
		}
	}
	for k, v := range s.acc {
		if v {
			out = append(out, "acc "+k)
		}
	}
	for k, v := range s.slot {
		out = append(out, fmt.Sprintf("slot %s=%d", k, v))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func conName(i int) string { return string(rune('A' + i)) }

type sysModel struct {
	st   *sysState
	logs []string
	leak bool // a plain call of a system contract inside a static frame is not read-only
}

// frame runs a frame in the model; false when it reverted (state and logs undone).
func (m *sysModel) frame(f *Frame, self string, static bool) bool {
	save, nl := m.st.copy(), len(m.logs)
	fail := func() bool { m.st, m.logs = save, m.logs[:nl]; return false }
	for i := range f.Ops {
		o := &f.Ops[i]
		switch o.K {
		case "sstore":
			if static {
				return fail()
			}
			m.st.slot[self] = o.Val
		case "call", "delegate", "static":
			to := conName(o.To)
			if o.K == "delegate" {
				to = self
			}
			ok := m.frame(o.Sub, to, static || o.K == "static")
			rds := 0
			if o.Sub.End == "revert" {
				rds = 32
			}
			if o.Quiet {
				break
			}
			if static {
				return fail() // the frame logs the result
			}
			m.logs = append(m.logs, fmt.Sprintf("%s#%d ok=%v rds=%d", self, o.ID, ok, rds))
		case "rawcall", "rawstatic", "rawdelegate":
			ro := o.K != "rawcall" || (static && !m.leak)
			ok, data := m.sys(o, self, ro)
			if o.Quiet {
				break
			}
			if static {
				return fail()
			}
			if ok {
				m.logs = append(m.logs, fmt.Sprintf("%s#%d ok=true data=%d", self, o.ID, data))
			} else {
				m.logs = append(m.logs, fmt.Sprintf("%s#%d ok=false", self, o.ID))
			}
		default:
			panic(HarnessFault("sys model: " + o.K))
		}
	}
	if f.End == "revert" || f.End == "invalid" {
		return fail()
	}
	return true
}

// sys is the meaning of a system-contract call made by self.
func (m *sysModel) sys(o *Op, self string, ro bool) (bool, int) {
	w := strings.Fields(o.Sem)
	switch w[0] {
	case "reg":
		if ro {
			return false, 0
		}
		m.st.reg[self] = true
		return true, 1
	case "store":
		if ro {
			return false, 0
		}
		if m.st.reg[self] {
			m.st.store[self+" "+w[1]] = true
			m.st.acc[w[1]] = true
		}
		return true, 1
	case "isstore":
		if m.st.store[self+" "+w[1]] {
			return true, 1
		}
		return true, 0
	case "send", "msgcall", "doomed":
		if ro || w[1] != self {
			return false, 0
		}
		m.st.msgs = append(m.st.msgs, qmsg{o, w, self})
		return true, 1
	case "badmsg": // a message no one, or more than one, has to sign, or not a message at all
		return false, 0
	}
	panic(HarnessFault("sys " + o.Sem))
}

// run is one execution of a frame by a contract, then its queue; false when all is undone.
func (m *sysModel) run(f *Frame, self string, order *[]string) bool {
	m.st.msgs = nil
	if !m.frame(f, self, false) {
		return false
	}
	q := m.st.msgs
	m.st.msgs = nil
	for _, x := range q {
		switch x.sem[0] {
		case "doomed":
			return false
		case "send":
			var amt int64
			fmt.Sscan(x.sem[3], &amt)
			if m.st.bal[x.sem[1]] < amt {
				return false
			}
			m.st.bal[x.sem[1]] -= amt
			m.st.bal[x.sem[2]] += amt
			*order = append(*order, strings.Join(x.sem, " "))
		case "msgcall":
			*order = append(*order, fmt.Sprintf("call by %s of %s", x.sem[1], conName(x.op.To)))
			sub := &sysModel{st: m.st, leak: m.leak}
			if !sub.run(x.op.Sub, conName(x.op.To), order) {
				return false
			}
			m.st = sub.st
		}
	}
	return true
}

// ---- comparing with the chain

func (l *lab) sysRead(ctx sdk.Context) *sysState {
	s := &sysState{bal: map[string]int64{}, reg: map[string]bool{}, store: map[string]bool{}, acc: map[string]bool{}, slot: map[string]int{}}
	for _, p := range []string{"A", "B", "O", "X", "Y", "H"} {
		s.bal[p] = l.w.Bal(ctx, party(p), FeeDenom).Int64()
		s.acc[p] = l.w.App.AccountKeeper.HasAccount(ctx, Acc(party(p)))
	}
	for _, con := range []string{"A", "B"} {
		ok, err := l.w.K.ERC20s.Has(ctx, party(con).Bytes())
		Must(err)
		s.reg[con] = ok
		for _, h := range []string{"A", "B", "H", "X"} {
			ok, err := l.w.K.ERC20StoresKeeper().IsStoreRegistered(ctx, Acc(party(h)), party(con))
			Must(err)
			s.store[con+" "+h] = ok
		}
		r, err := evmkeeper.NewQueryServer(l.w.K).State(ctx, &evmtypes.QueryStateRequest{ContractAddr: party(con).Hex(), Key: common.Hash{}.Hex()})
		Must(err)
		s.slot[con] = int(common.HexToHash(r.Value).Big().Int64())
	}
	return s
}

// accountNumbers checks that no two accounts share a number.
func (l *lab) accountNumbers(ctx sdk.Context) string {
	seen := map[uint64]string{}
	bad := ""
	l.w.App.AccountKeeper.IterateAccounts(ctx, func(a sdk.AccountI) bool {
		if x, ok := seen[a.GetAccountNumber()]; ok {
			bad = fmt.Sprintf("accounts %s and %s share number %d", x, a.GetAddress(), a.GetAccountNumber())
			return true
		}
		seen[a.GetAccountNumber()] = a.GetAddress().String()
		return false
	})
	return bad
}

func sysLogs(in []Log) []string {
	var out []string
	names := map[common.Address]string{}
	for _, p := range []string{"A", "B"} {
		names[party(p)] = p
	}
	for _, x := range in {
		n, ok := names[x.Addr]
		if !ok {
			out = append(out, fmt.Sprintf("unexpected log of %s", x.Addr))
			continue
		}
		id := int(x.Topics[0].Big().Int64())
		ok1 := new(big.Int).SetBytes(x.Data[:32]).Sign() != 0
		out = append(out, fmt.Sprintf("%s#%d ok=%v|%x", n, id, ok1, x.Data[32:]))
	}
	return out
}

// matchLogs compares expected and observed logs; raw calls compare data only on success.
func matchLogs(want []string, got []string) bool {
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		g := strings.SplitN(got[i], "|", 2)
		switch {
		case strings.Contains(want[i], "data="):
			var d int
			fmt.Sscanf(want[i][strings.Index(want[i], "data=")+5:], "%d", &d)
			if !strings.HasPrefix(want[i], g[0]+" ") || g[1] != fmt.Sprintf("%064x", d) {
				return false
			}
		case strings.Contains(want[i], "rds="):
			var d int
			fmt.Sscanf(want[i][strings.Index(want[i], "rds=")+4:], "%d", &d)
			if !strings.HasPrefix(want[i], g[0]+" ") || g[1] != fmt.Sprintf("%064x", d) {
				return false
			}
		default:
			if g[0] != want[i] {
				return false
			}
		}
	}
	return true
}

// sends lists the transfers the chain's bank events report, in order (contract value moves excluded).
func sysSends(ctx sdk.Context) []string {
	var out []string
	names := map[string]string{}
	for _, p := range []string{"A", "B", "O", "X", "Y", "H"} {
		names[Acc(party(p)).String()] = p
	}
	for _, e := range ctx.EventManager().Events() {
		if e.Type != "transfer" && e.Type != evmtypes.EventTypeCall {
			continue
		}
		m := map[string]string{}
		for _, a := range e.Attributes {
			m[a.Key] = a.Value
		}
		if e.Type == "transfer" {
			out = append(out, fmt.Sprintf("send %s %s %s", names[m["sender"]], names[m["recipient"]], strings.TrimSuffix(m["amount"], FeeDenom)))
		}
	}
	return out
}

// sysHistory runs programs one after another on the chain and the model.
func (l *lab) sysHistory(progs []*Program, sig *string) string {
	return l.sysHistoryM(progs, sig, false)
}

// sysHistoryM also knows the variant of the model with the recorded static-call defect.
func (l *lab) sysHistoryM(progs []*Program, sig *string, leak bool) string {
	bad := func(s, f string, a ...any) string { *sig = s; return fmt.Sprintf(f, a...) }
	ctx := Branch(l.base)
	var st *sysState
	for i, p := range progs {
		if p.Code == nil {
			p.Compile()
		}
		for j := range p.Addrs {
			l.w.SetCode(ctx, p.Addrs[j], p.Code[j])
		}
		if st == nil {
			st = l.sysRead(ctx)
		}
		m := &sysModel{st: st.copy(), leak: leak}
		var order []string
		ok := m.run(p.Root, "A", &order)
		cc, commit := ctx.CacheContext()
		cc = Fresh(cc, 25_000_000)
		var logs evmtypes.Logs
		var err error
		pan := Try(func() { _, logs, err = l.w.K.EVMCall(cc, Caller, ConAddr(0), []byte{0}, nil, nil) })
		if pan != "" {
			return bad("panic", "execution %d: %s", i, pan)
		}
		if (err == nil) != ok {
			return bad("outcome", "execution %d: model success=%v, chain error=%v", i, ok, err)
		}
		l.c.Outcome(fmt.Sprintf("ok=%v queued=%d logs=%d", ok, len(order), len(m.logs)))
		before := st
		if ok {
			got := sysLogs(ConvLogs(logs))
			if !matchLogs(m.logs, got) {
				return bad("logs", "execution %d: logs %v, model %v", i, got, m.logs)
			}
			var sends []string
			for _, o := range order {
				if strings.HasPrefix(o, "send") {
					sends = append(sends, o)
				}
			}
			if ev := sysSends(cc); strings.Join(ev, ";") != strings.Join(sends, ";") {
				return bad("message-order", "execution %d: transfers executed %v, model %v", i, ev, sends)
			}
			commit()
			st = m.st
		} else {
			st = before
		}
		st.msgs = nil
		if g := l.sysRead(ctx); g.String() != st.String() {
			return bad("state", "execution %d: chain {%s}, model {%s}", i, g, st)
		}
		if d := l.accountNumbers(ctx); d != "" {
			return bad("account-number", "execution %d: %s", i, d)
		}
		l.c.State(st.String() + strings.Join(m.logs, ";"))
		l.c.Trans(nops(p.Root) + 1)
	}
	return ""
}

func (l *lab) sysRun(prefix string, progs []*Program) {
	var names []string
	for _, p := range progs {
		names = append(names, p.Root.String())
	}
	name := strings.Join(names, " ;; ")
	l.c.Exec(name)
	var sig string
	if d := l.sysHistory(progs, &sig); d != "" {
		l.c.Violate(prefix+sig, name+" => "+d, name, func() string { var s string; return l.sysHistory(progs, &s) })
		return
	}
	l.c.Validated(1)
}

var _ = authtypes.ModuleName
