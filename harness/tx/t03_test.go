package tx

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// kind is a kind of transaction; its outcome is known when its sequence is right.
type kind struct {
	name  string
	out   string         // ok, fail, reject
	evm   map[string]int // EVM messages per signer
	other []string       // further signers
	build func(l *lab, seqs map[string]uint64, by string) sdk.Tx
}

var keys = map[string]*Key{"alice": alice, "bob": bob, "carol": carol}

func partner(by string) string {
	if by == "alice" {
		return "bob"
	}
	return "alice"
}

func msgCall(k *Key, to common.Address, v int64) sdk.Msg {
	return &evmtypes.MsgCall{Sender: k.Acc().String(), ContractAddr: to.Hex(), Input: "0x", Value: math.NewInt(v)}
}

func msgCreate(k *Key, code []byte, v int64) sdk.Msg {
	return &evmtypes.MsgCreate{Sender: k.Acc().String(), Code: hexutil.Encode(code), Value: math.NewInt(v)}
}

func kinds() []kind {
	eth := func(name, out string, to *common.Address, gas uint64, data []byte) kind {
		return kind{name, out, map[string]int{"": 1}, nil, func(l *lab, seqs map[string]uint64, by string) sdk.Tx {
			t := keys[by].SignEth(ethTx(2, seqs[by], to, bi(0), bi(1_000_000), bi(0), gas, data, nil))
			tx, err := l.w.EthToSDK(l.base, t)
			Must(err)
			return tx
		}}
	}
	sdkk := func(name, out string, gas uint64, evm int, evmOther int, msgs func(k, o *Key) []sdk.Msg) kind {
		kd := kind{name, out, map[string]int{"": evm}, nil, nil}
		if evmOther >= 0 {
			kd.evm["other"] = evmOther
			kd.other = []string{"other"}
		}
		kd.build = func(l *lab, seqs map[string]uint64, by string) sdk.Tx {
			k, o := keys[by], keys[partner(by)]
			opt := TxOpts{Msgs: msgs(k, o), Gas: gas, Fee: coins(FeeDenom, bi(1000)), Seq: seqs[by], AccNum: l.num(l.base, k)}
			if evmOther >= 0 {
				opt.Key2, opt.Seq2, opt.AccNum2 = o, seqs[partner(by)], l.num(l.base, o)
			}
			return k.SignSDK(opt)
		}
		return kd
	}
	send := func(k *Key, n int64) sdk.Msg {
		return banktypes.NewMsgSend(k.Acc(), sink.Bytes(), coins(FeeDenom, bi(n)))
	}
	tooMuch := int64(9_000_000_000_000_000_000)
	badInit := []byte{0x60, 0, 0x60, 0, 0xfd}
	return []kind{
		eth("eth call", "ok", &counter, 1_000_000, nil),
		eth("eth revert", "fail", &revert, 1_000_000, nil),
		eth("eth out of gas", "fail", &looper, 500_000, nil),
		eth("eth create", "ok", nil, 2_000_000, initOf(counterCode)),
		eth("eth create revert", "fail", nil, 2_000_000, badInit),
		eth("eth no gas for ante", "reject", &counter, 2_000, nil),
		sdkk("call", "ok", 1_000_000, 1, -1, func(k, _ *Key) []sdk.Msg { return []sdk.Msg{msgCall(k, counter, 0)} }),
		sdkk("call revert", "fail", 1_000_000, 1, -1, func(k, _ *Key) []sdk.Msg { return []sdk.Msg{msgCall(k, revert, 0)} }),
		sdkk("call out of gas", "fail", 500_000, 1, -1, func(k, _ *Key) []sdk.Msg { return []sdk.Msg{msgCall(k, looper, 0)} }),
		sdkk("create", "ok", 2_000_000, 1, -1, func(k, _ *Key) []sdk.Msg { return []sdk.Msg{msgCreate(k, initOf(counterCode), 0)} }),
		sdkk("create2 revert", "fail", 2_000_000, 1, -1, func(k, _ *Key) []sdk.Msg {
			return []sdk.Msg{&evmtypes.MsgCreate2{Sender: k.Acc().String(), Code: hexutil.Encode(badInit), Value: math.ZeroInt(), Salt: 7}}
		}),
		sdkk("call, call", "ok", 2_000_000, 2, -1, func(k, _ *Key) []sdk.Msg { return []sdk.Msg{msgCall(k, counter, 0), msgCall(k, counter, 0)} }),
		sdkk("call, revert", "fail", 2_000_000, 2, -1, func(k, _ *Key) []sdk.Msg { return []sdk.Msg{msgCall(k, counter, 0), msgCall(k, revert, 0)} }),
		sdkk("create, call, create", "ok", 3_000_000, 3, -1, func(k, _ *Key) []sdk.Msg {
			return []sdk.Msg{msgCreate(k, initOf(counterCode), 0), msgCall(k, counter, 0), msgCreate(k, initOf(counterCode), 0)}
		}),
		sdkk("send", "ok", 1_000_000, 0, -1, func(k, _ *Key) []sdk.Msg { return []sdk.Msg{send(k, 1)} }),
		sdkk("send fails", "fail", 1_000_000, 0, -1, func(k, _ *Key) []sdk.Msg { return []sdk.Msg{send(k, tooMuch)} }),
		sdkk("send, revert", "fail", 1_000_000, 1, -1, func(k, _ *Key) []sdk.Msg { return []sdk.Msg{send(k, 1), msgCall(k, revert, 0)} }),
		sdkk("call, send fails", "fail", 1_000_000, 1, -1, func(k, _ *Key) []sdk.Msg { return []sdk.Msg{msgCall(k, counter, 0), send(k, tooMuch)} }),
		sdkk("call, other's call", "ok", 2_000_000, 1, 1, func(k, o *Key) []sdk.Msg { return []sdk.Msg{msgCall(k, counter, 0), msgCall(o, counter, 0)} }),
		sdkk("call, other's revert", "fail", 2_000_000, 1, 1, func(k, o *Key) []sdk.Msg { return []sdk.Msg{msgCall(k, counter, 0), msgCall(o, revert, 0)} }),
		sdkk("send, other's call", "ok", 2_000_000, 0, 1, func(k, o *Key) []sdk.Msg { return []sdk.Msg{send(k, 1), msgCall(o, counter, 0)} }),
		sdkk("call, call in capitals", "ok", 2_000_000, 2, -1, func(k, _ *Key) []sdk.Msg {
			m := msgCall(k, counter, 0).(*evmtypes.MsgCall)
			m.Sender = strings.ToUpper(m.Sender)
			return []sdk.Msg{msgCall(k, counter, 0), m}
		}),
		sdkk("create in capitals, create", "ok", 3_000_000, 2, -1, func(k, _ *Key) []sdk.Msg {
			m := msgCreate(k, initOf(counterCode), 0).(*evmtypes.MsgCreate)
			m.Sender = strings.ToUpper(m.Sender)
			return []sdk.Msg{m, msgCreate(k, initOf(counterCode), 0)}
		}),
		sdkk("send without fee funds", "reject", 1_000_000, 0, -1, nil),
	}
}

// t03m is the model: sequences, transactions seen, next deposit.
type t03m struct {
	seq  map[string]uint64
	seen []string // kind@signer@sequences of the signers
	dep  uint64
}

func (m *t03m) clone() *t03m {
	n := &t03m{seq: map[string]uint64{}, seen: append([]string{}, m.seen...), dep: m.dep}
	for k, v := range m.seq {
		n.seq[k] = v
	}
	return n
}

type t03 struct {
	*lab
	m     *t03m
	cache map[string]sdk.Tx
	kinds []kind
	prev  string // whole state before the step
	full  bool
	lists bool // walk message lists instead of kinds
}

func (s *t03) Base() (sdk.Context, *t03m) { return s.base, s.m }
func (s *t03) Canon(m *t03m) string {
	seen := append([]string{}, m.seen...)
	sort.Strings(seen)
	return fmt.Sprint(m.seq["alice"], m.seq["bob"], m.seq["carol"], m.dep, seen)
}
func (s *t03) Digest(ctx sdk.Context) string                  { return "" }
func (s *t03) After(_ sdk.Context, _ string, _ error) string { return "" }
func (s *t03) Observe(ctx sdk.Context, m *t03m) string {
	for n, k := range keys {
		if got := s.seq(ctx, k); got != m.seq[n] {
			return fmt.Sprintf("the sequence of %s is %d, expected %d (%s)", n, got, m.seq[n], s.prev)
		}
	}
	return ""
}

// tx is the signed transaction of a kind for given sequences.
func (s *t03) tx(i int, by string, seqs map[string]uint64) sdk.Tx {
	key := fmt.Sprint(i, by, seqs["alice"], seqs["bob"], seqs["carol"])
	if t, ok := s.cache[key]; ok {
		return t
	}
	kd := s.kinds[i]
	var t sdk.Tx
	if kd.name == "send without fee funds" {
		k := keys[by]
		t = k.SignSDK(TxOpts{Msgs: []sdk.Msg{banktypes.NewMsgSend(k.Acc(), sink.Bytes(), coins(FeeDenom, bi(1)))}, Gas: 1_000_000, Fee: coins("nope", bi(5)), Seq: seqs[by], AccNum: s.num(s.base, k)})
	} else {
		t = kd.build(s.lab, seqs, by)
	}
	s.cache[key] = t
	return t
}

// expect is the model's effect of delivering the transaction.
func (s *t03) expect(m *t03m, i int, by string, seqs map[string]uint64, hook bool) (out string) {
	kd := s.kinds[i]
	signers := []string{by}
	if len(kd.other) > 0 {
		signers = append(signers, partner(by))
	}
	for _, sg := range signers {
		if seqs[sg] != m.seq[sg] {
			return "reject"
		}
	}
	if kd.out == "reject" {
		return "reject"
	}
	for j, sg := range signers {
		n := 1
		if kd.out == "ok" {
			e := kd.evm[""]
			if j == 1 {
				e = kd.evm["other"]
			}
			if e > n {
				n = e
			}
		}
		m.seq[sg] += uint64(n)
	}
	return kd.out
}

// listKinds are all message lists of up to n messages of one signer.
func listKinds(n int) []kind {
	type item struct {
		name string
		evm  int
		fail bool
		mk   func(k *Key) sdk.Msg
	}
	items := []item{
		{"call", 1, false, func(k *Key) sdk.Msg { return msgCall(k, counter, 0) }},
		{"create", 1, false, func(k *Key) sdk.Msg { return msgCreate(k, initOf(counterCode), 0) }},
		{"send", 0, false, func(k *Key) sdk.Msg {
			return banktypes.NewMsgSend(k.Acc(), sink.Bytes(), coins(FeeDenom, bi(1)))
		}},
		{"revert", 1, true, func(k *Key) sdk.Msg { return msgCall(k, revert, 0) }},
	}
	var out []kind
	Sequences(len(items), 2, n, func(ix []int) bool {
		kd := kind{out: "ok", evm: map[string]int{}}
		var its []item
		for j, x := range ix {
			if items[x].fail && j != len(ix)-1 {
				return true
			}
			if items[x].fail {
				kd.out = "fail"
			}
			kd.name += items[x].name + " "
			kd.evm[""] += items[x].evm
			its = append(its, items[x])
		}
		kd.build = func(l *lab, seqs map[string]uint64, by string) sdk.Tx {
			k := keys[by]
			var msgs []sdk.Msg
			for _, it := range its {
				msgs = append(msgs, it.mk(k))
			}
			return k.SignSDK(TxOpts{Msgs: msgs, Gas: 6_000_000, Fee: coins(FeeDenom, bi(1000)), Seq: seqs[by], AccNum: l.num(l.base, k)})
		}
		out = append(out, kd)
		return true
	})
	return out
}

func (s *t03) Ops(m *t03m) []MOp[*t03m] {
	var ops []MOp[*t03m]
	deliver := func(name string, i int, by string, seqs map[string]uint64, tag string) {
		ops = append(ops, MOp[*t03m]{Name: name, Keep: true, Model: func(m *t03m) (*t03m, bool) {
			n := m.clone()
			out := s.expect(n, i, by, seqs, false)
			if tag != "" && out != "reject" {
				n.seen = append(n.seen, tag)
			}
			return n, out == "ok"
		}, Real: func(ctx sdk.Context) error {
			before := ""
			rejected := s.expect(m.clone(), i, by, seqs, false) == "reject"
			if rejected {
				before = s.w.DigestStores(ctx)
			}
			d := s.w.DeliverOn(ctx, s.tx(i, by, seqs))
			if rejected && s.w.DigestStores(ctx) != before {
				panic("a rejected transaction changed the state")
			}
			if d.Err != "" {
				return fmt.Errorf("%s", d.Err)
			}
			return nil
		}})
	}
	cur := func() map[string]uint64 {
		return map[string]uint64{"alice": m.seq["alice"], "bob": m.seq["bob"], "carol": m.seq["carol"]}
	}
	for i, kd := range s.kinds {
		if s.lists && len(m.seen) > 0 {
			break // then only the same bytes again
		}
		deliver("alice: "+kd.name, i, "alice", cur(), tagOf(i, "alice", cur()))
	}
	// bob, who takes part in the two-signer transactions
	for _, i := range []int{0, 1, 7} {
		if s.lists {
			break
		}
		deliver("bob: "+s.kinds[i].name, i, "bob", cur(), "")
	}
	// early and late sequences
	for _, i := range []int{0, 7, 14} {
		if s.lists {
			break
		}
		q := cur()
		q["alice"]++
		deliver("alice, next but one: "+s.kinds[i].name, i, "alice", q, "")
	}
	// carried by a bridge deposit
	for _, i := range []int{6, 7, 9, 11, 12, 14, 15, 17} {
		if s.lists {
			break
		}
		ops = append(ops, s.hook("deposit with "+s.kinds[i].name, i, cur()))
	}
	// the same signed bytes again
	seen := map[string]bool{}
	for _, t := range m.seen {
		if seen[t] {
			continue
		}
		seen[t] = true
		var i int
		var a, b uint64
		p := strings.Split(t, "@")
		fmt.Sscan(p[0], &i)
		fmt.Sscan(p[2], &a)
		fmt.Sscan(p[3], &b)
		q := map[string]uint64{p[1]: a}
		q["bob"] = b
		deliver("again "+t+" "+s.kinds[i].name, i, p[1], q, "")
		if p[1] == "carol" {
			ops = append(ops, s.hook("deposit with again "+t, i, q))
		}
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Name < ops[j].Name })
	return ops
}

func tagOf(i int, by string, seqs map[string]uint64) string {
	return fmt.Sprintf("%d@%s@%d@%d", i, by, seqs[by], seqs["bob"])
}

func (s *t03) hook(name string, i int, seqs map[string]uint64) MOp[*t03m] {
	return MOp[*t03m]{Name: name, Model: func(m *t03m) (*t03m, bool) {
		n := m.clone()
		out := s.expect(n, i, "carol", seqs, true)
		if out != "reject" {
			n.seen = append(n.seen, tagOf(i, "carol", seqs))
		}
		n.dep++
		return n, true // the deposit itself is final
	}, Real: func(ctx sdk.Context) error {
		h := s.w.App.MsgServiceRouter().Handler(&opchildtypes.MsgFinalizeTokenDeposit{})
		ns, err := s.w.App.OPChildKeeper.GetNextL1Sequence(ctx)
		if err != nil {
			return err
		}
		c2 := ctx.WithGasMeter(storetypes.NewGasMeter(20_000_000)).WithExecMode(sdk.ExecModeFinalize)
		res, err := h(c2, &opchildtypes.MsgFinalizeTokenDeposit{Sender: s.w.Admin.String(), From: "init1l1", To: alice.Acc().String(), Amount: sdk.NewInt64Coin("l2/"+strings.Repeat("ab", 32), 5), Sequence: ns, Height: 1, BaseDenom: "uinit", Data: s.w.Encode(s.tx(i, "carol", seqs))})
		if res != nil {
			s.prev = ""
			for _, e := range EventList(res.Events) {
				if strings.HasPrefix(e, "finalize_token_deposit") {
					s.prev = e
				}
			}
		}
		return err
	}}
}

// TestT03 decides that every included transaction consumes its sequence exactly once.
func TestT03(t *testing.T) {
	Run("T03", "bounded", func(c *Check) {
		WalkOps(c, "sequence", Pick(c, 3, 4), func(i int) OpSys[*t03m] {
			l := newLab([]int{18})
			s := &t03{lab: l, m: &t03m{seq: map[string]uint64{"alice": 0, "bob": 0}}, cache: map[string]sdk.Tx{}, kinds: kinds()}
			return s
		})
		WalkOps(c, "message list", 2, func(i int) OpSys[*t03m] {
			l := newLab([]int{18})
			return &t03{lab: l, m: &t03m{seq: map[string]uint64{"alice": 0, "bob": 0}}, cache: map[string]sdk.Tx{}, kinds: listKinds(Pick(c, 4, 5)), lists: true}
		})
		c.Note("transaction kinds", len(kinds()))
		c.Note("message lists", len(listKinds(Pick(c, 4, 5))))
		c.Assume("a successful transaction advances a signer by the number of its EVM messages, at least one, as an Ethereum nonce does")
	})
}
