package tx

import (
	"fmt"
	"strings"
	"testing"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

var cosmosAddr = common.HexToAddress("0xf1")

func dispatch(from *Key, msg string) sdk.Msg {
	abi, err := i_cosmos.ICosmosMetaData.GetAbi()
	Must(err)
	in, err := abi.Pack("execute_cosmos", msg)
	Must(err)
	return &evmtypes.MsgCall{Sender: from.Acc().String(), ContractAddr: cosmosAddr.Hex(), Input: hexutil.Encode(in), Value: math.ZeroInt()}
}

func sendJSON(from, to sdk.AccAddress, amt int64) string {
	return fmt.Sprintf(`{"@type":"/cosmos.bank.v1beta1.MsgSend","from_address":"%s","to_address":"%s","amount":[{"denom":"%s","amount":"%d"}]}`, from, to, FeeDenom, amt)
}

type part struct {
	name string
	ok   bool
	bob  bool
	msg  func(l *lab) sdk.Msg
}

func parts() []part {
	a, b := alice, bob
	call := func(k *Key, to common.Address, v int64, in []byte) func(*lab) sdk.Msg {
		return func(*lab) sdk.Msg {
			m := msgCall(k, to, v).(*evmtypes.MsgCall)
			m.Input = hexutil.Encode(in)
			return m
		}
	}
	create2 := func(salt uint64, code []byte) func(*lab) sdk.Msg {
		return func(*lab) sdk.Msg {
			return &evmtypes.MsgCreate2{Sender: a.Acc().String(), Code: hexutil.Encode(code), Value: math.ZeroInt(), Salt: salt}
		}
	}
	newToken := append(crypto.Keccak256([]byte("createERC20(string,string,uint8)"))[:4], common.FromHex(
		fmt.Sprintf("%064x%064x%064x", 0x60, 0xa0, 6)+fmt.Sprintf("%064x", 1)+"79"+strings.Repeat("0", 62)+fmt.Sprintf("%064x", 1)+"79"+strings.Repeat("0", 62))...)
	fresh := Addr("tx-fresh")
	huge := int64(9_223_372_036_854_775_807)
	return []part{
		{"call", true, false, call(a, counter, 0, nil)},
		{"pay a new account", true, false, call(a, fresh, 777, nil)},
		{"create", true, false, func(*lab) sdk.Msg { return msgCreate(a, initOf(counterCode), 5) }},
		{"create2", true, false, create2(1, initOf(counterCode))},
		{"new token", true, false, func(l *lab) sdk.Msg {
			fa, err := l.w.K.GetERC20FactoryAddr(l.base)
			Must(err)
			m := msgCall(a, fa, 0).(*evmtypes.MsgCall)
			m.Input = hexutil.Encode(newToken)
			return m
		}},
		{"send", true, false, func(*lab) sdk.Msg { return banktypes.NewMsgSend(a.Acc(), fresh.Bytes(), coins(FeeDenom, bi(31))) }},
		{"queue a send", true, false, func(*lab) sdk.Msg { return dispatch(a, sendJSON(a.Acc(), sink.Bytes(), 3)) }},
		{"token transfer", true, false, func(l *lab) sdk.Msg {
			in := append(crypto.Keccak256([]byte("transfer(address,uint256)"))[:4], common.FromHex(fmt.Sprintf("%064x%064x", sink.Bytes(), 9))...)
			m := msgCall(a, l.toks[6], 0).(*evmtypes.MsgCall)
			m.Input = hexutil.Encode(in)
			return m
		}},
		{"allowance", true, false, func(*lab) sdk.Msg {
			m, err := feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{}, a.Acc(), sink.Bytes())
			Must(err)
			return m
		}},
		{"bob's call", true, true, call(b, counter, 0, nil)},
		// failing
		{"revert", false, false, call(a, revert, 0, nil)},
		{"out of gas", false, false, call(a, looper, 0, nil)},
		{"send too much", false, false, func(*lab) sdk.Msg { return banktypes.NewMsgSend(a.Acc(), fresh.Bytes(), coins(FeeDenom, bi(huge))) }},
		{"pay too much", false, false, call(a, counter, huge, nil)},
		{"create fails", false, false, func(*lab) sdk.Msg { return msgCreate(a, []byte{0xfe}, 0) }},
		{"create2 fails", false, false, create2(2, []byte{0x60, 0, 0x60, 0, 0xfd})},
		{"queue a failing send", false, false, func(*lab) sdk.Msg { return dispatch(a, sendJSON(a.Acc(), sink.Bytes(), huge)) }},
		{"queue for another", false, false, func(*lab) sdk.Msg { return dispatch(a, sendJSON(b.Acc(), sink.Bytes(), 1)) }},
		{"bad input", false, false, func(*lab) sdk.Msg {
			m := msgCall(a, counter, 0).(*evmtypes.MsgCall)
			m.Input = "0x1"
			return m
		}},
		{"not the authority", false, false, func(*lab) sdk.Msg {
			return &evmtypes.MsgUpdateParams{Authority: a.Acc().String(), Params: evmtypes.DefaultParams()}
		}},
		{"bob's revert", false, true, call(b, revert, 0, nil)},
	}
}

// TestT05 decides that a failed message changes nothing but fees and sequence.
func TestT05(t *testing.T) {
	Run("T05", "bounded", func(c *Check) {
		type wrk struct {
			l     *lab
			parts []part
			ref   map[bool]*refState // with bob signing or not
		}
		send := func(k *Key) sdk.Msg {
			return banktypes.NewMsgSend(k.Acc(), sink.Bytes(), coins(FeeDenom, bi(9_223_372_036_854_775_807)))
		}
		sign := func(l *lab, ctx sdk.Context, msgs []sdk.Msg, two bool) []byte {
			o := TxOpts{Msgs: msgs, Gas: 5_000_000, Fee: coins(FeeDenom, bi(1_000_000)), Seq: l.seq(ctx, alice), AccNum: l.num(ctx, alice)}
			if two {
				o.Key2, o.Seq2, o.AccNum2 = bob, l.seq(ctx, bob), l.num(ctx, bob)
				if m, ok := msgs[0].(*evmtypes.MsgCall); ok && m.Sender == bob.Acc().String() {
					// the first signer pays
					return l.w.Encode(bob.SignSDK(TxOpts{Msgs: msgs, Gas: o.Gas, Fee: o.Fee, Seq: l.seq(ctx, bob), AccNum: l.num(ctx, bob), Payer: bob.Acc(), Key2: alice, Seq2: o.Seq, AccNum2: o.AccNum}))
				}
			}
			return l.w.Encode(alice.SignSDK(o))
		}
		show := func(r *abci.ExecTxResult) string {
			return fmt.Sprintf("code=%d gas=%d events=%v data=%x", r.Code, r.GasUsed, EventList(r.Events), r.Data)
		}
		// probes are transactions that follow in the block, the same bytes on both sides
		probes := func(l *lab, ctx sdk.Context) []string {
			var out []string
			for _, m := range [][]sdk.Msg{
				{msgCall(carol, counter, 2), msgCreate(carol, initOf(counterCode), 0)},
				{dispatch(carol, sendJSON(carol.Acc(), Addr("tx-fresh").Bytes(), 3))},
			} {
				r := l.w.DeliverRaw(ctx, l.w.Encode(carol.SignSDK(TxOpts{Msgs: m, Gas: 5_000_000, Fee: coins(FeeDenom, bi(1000)), Seq: l.seq(ctx, carol), AccNum: l.num(ctx, carol)})))
				if r.Code != 0 {
					panic(HarnessFault("probe: " + r.Log))
				}
				out = append(out, show(r))
			}
			return out
		}
		mkref := func(l *lab, payerBob, two bool) *refState {
			ctx := Branch(l.base)
			msgs := []sdk.Msg{send(alice)}
			if two {
				msgs = append(msgs, send(bob))
			}
			if payerBob {
				msgs = []sdk.Msg{msgCall(bob, revert, 0), send(alice)}
			}
			r := l.w.DeliverRaw(ctx, sign(l, ctx, msgs, two))
			if r.Code == 0 {
				panic(HarnessFault("reference succeeds"))
			}
			return &refState{l.w.DumpAll(ctx), l.w.DigestStores(ctx), EventList(r.Events), probes(l, ctx), l.w.DigestStores(ctx)}
		}
		refs := map[*lab]map[string]*refState{}
		mk := func(int) *wrk {
			l := newLab([]int{6, 18})
			_ = refs
			return &wrk{l: l, parts: parts()}
		}
		all := parts()
		judge := func(w *wrk, cache map[string]*refState, seq []int) string {
			l := w.l
			ctx := Branch(l.base)
			var msgs []sdk.Msg
			ok, two := true, false
			for _, i := range seq {
				p := w.parts[i]
				msgs = append(msgs, p.msg(l))
				ok = ok && p.ok
				two = two || p.bob
			}
			onlyBob := true
			for _, i := range seq {
				onlyBob = onlyBob && w.parts[i].bob
			}
			if onlyBob {
				msgs = append(msgs, send(alice))
				ok = false
			}
			// a CREATE2 with the same salt and code twice collides
			// and a second allowance for the same grantee is refused
			for _, dup := range []string{"create2", "allowance"} {
				n := 0
				for _, i := range seq {
					if w.parts[i].name == dup {
						n++
					}
				}
				if n > 1 {
					ok = false
				}
			}
			r := l.w.DeliverRaw(ctx, sign(l, ctx, msgs, two))
			if ok != (r.Code == 0) {
				return fmt.Sprintf("succeeds=%v (%s), expected %v", r.Code == 0, r.Log, ok)
			}
			if ok {
				c.Outcome("succeeded")
				return ""
			}
			c.Outcome("failed")
			payerBob := w.parts[seq[0]].bob
			k := fmt.Sprint(payerBob, two)
			ref := cache[k]
			if ref == nil {
				ref = mkref(l, payerBob, two)
				cache[k] = ref
			}
			if l.w.DigestStores(ctx) != ref.digest {
				return "the failed transaction left more than its fee and sequence: " + DiffMaps(ref.dump, l.w.DumpAll(ctx))
			}
			if a, b := strings.Join(EventList(r.Events), "\n"), strings.Join(ref.events, "\n"); norm(a) != norm(b) {
				return "the failed transaction keeps events beyond its fee: " + a + " | " + b
			}
			if len(r.Data) != 0 {
				return "the failed transaction has a result"
			}
			if r.GasUsed > r.GasWanted && r.GasWanted != 5_000_000 {
				return "gas"
			}
			p := probes(l, ctx)
			for i := range p {
				if p[i] != ref.probes[i] {
					return fmt.Sprintf("a later transaction of the block differs: %s | %s", p[i], ref.probes[i])
				}
			}
			if l.w.DigestStores(ctx) != ref.digest2 {
				return "a later transaction of the block leaves another state"
			}
			return ""
		}
		type wk struct {
			w     *wrk
			cache map[string]*refState
		}
		Parallel(c, 8, func(i int) *wk { return &wk{mk(i), map[string]*refState{}} }, func(yield func([]int) bool) {
			Sequences(len(all), 1, Pick(c, 3, 4), yield)
		}, func(w *wk, seq []int) {
			var names []string
			for _, i := range seq {
				names = append(names, all[i].name)
			}
			name := strings.Join(names, " ; ")
			c.Exec(name)
			c.State(name)
			c.Trans(len(seq))
			c.Validated(1)
			c.Sample(name)
			if d := judge(w.w, w.cache, seq); d != "" {
				c.Violate("atomicity", name+" => "+d, name, func() string { return judge(w.w, w.cache, seq) })
			}
		})
		c.Note("messages", len(all))
		c.Assume("the reference is the state left by a transaction of the same signers and fee whose only message is a bank send that fails")
	})
}

type refState struct {
	dump    map[string]string
	digest  string
	events  []string
	probes  []string
	digest2 string
}

// norm leaves out the transaction's own bytes (signatures) from its events.
func norm(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "signature="); i >= 0 {
			l = l[:i]
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}
