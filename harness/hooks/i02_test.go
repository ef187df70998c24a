package hooks

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	sdk "github.com/cosmos/cosmos-sdk/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	chantypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	localhost "github.com/cosmos/ibc-go/v8/modules/light-clients/09-localhost"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	nfttypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// tgt is a contract that is asked to take the callback.
type tgt struct {
	name string
	addr common.Address
	burn bool
}

// noteCode records the call (caller, input, number of calls, the caller's balance at the time) and
// then does what tail says.
func noteCode(token common.Address, tail func(a *Asm)) []byte {
	a := NewAsm()
	a.Op(0x33).Push(0).Op(0x55)
	a.Push(0).Op(0x35).Push(1).Op(0x55)
	a.Push(4).Op(0x35).Push(2).Op(0x55)
	a.Push(36).Op(0x35).Push(3).Op(0x55)
	a.Push(4).Op(0x54).Push(1).Op(0x01).Push(4).Op(0x55)
	a.Op(0x36).Push(5).Op(0x55)
	a.PushB(common.RightPadBytes(pack("balanceOf(address)"), 32)).Push(0).Op(0x52).Op(0x33).Push(4).Op(0x52)
	a.Push(32).Push(64).Push(36).Push(0).PushAddr(token).Op(0x5a, 0xfa, 0x50).Push(64).Op(0x51).Push(6).Op(0x55)
	tail(a)
	return a.Bytes()
}

// queueCode asks the chain to send 1 of the fee token from the contract to u3.
func queueCode(a *Asm, from common.Address, amt int) {
	msg := fmt.Sprintf(`{"@type":"/cosmos.bank.v1beta1.MsgSend","from_address":"%s","to_address":"%s","amount":[{"denom":"stake","amount":"%d"}]}`, Acc(from), Acc(u3), amt)
	in := append(pack("execute_cosmos(string)", 32, len(msg)), common.RightPadBytes([]byte(msg), (len(msg)+31)/32*32)...)
	a.Data("msg", in)
	a.Push(uint64(len(in))).PushLabel("msg").Push(0).Op(0x39)
	a.Push(0).Push(0).Push(uint64(len(in))).Push(0).Push(0).Push(0xf1).Op(0x5a, 0xf1)
	a.PushLabel("ok").Op(0x57).Push(0).Push(0).Op(0xfd).Label("ok").Op(0x00)
}

type i02 struct {
	*lab
	tgts []tgt
}

func newI02() *i02 {
	s := &i02{lab: newLab()}
	add := func(name string, burn bool, tail func(a *Asm, me common.Address)) {
		t := Addr("cb-" + name)
		s.tgts = append(s.tgts, tgt{name, t, burn})
		s.w.SetCode(s.base, t, noteCode(s.saddr, func(a *Asm) { tail(a, t) }))
		s.w.Fund(s.base, t, FeeDenom, 5)
	}
	add("notes", false, func(a *Asm, _ common.Address) { a.Op(0x00) })
	add("reverts", false, func(a *Asm, _ common.Address) { a.Push(0).Push(0).Op(0xfd) })
	add("burns all gas", true, func(a *Asm, _ common.Address) { a.Op(0xfe) })
	add("loops", true, func(a *Asm, _ common.Address) { a.Label("l").PushLabel("l").Op(0x56) })
	add("sends", false, func(a *Asm, me common.Address) { queueCode(a, me, 2) })
	add("sends too much", false, func(a *Asm, me common.Address) { queueCode(a, me, 50) })
	s.tgts = append(s.tgts, tgt{"nobody", nobody, false}, tgt{"token", s.saddr, false})
	// u1 holds what the failing transfers give back
	return s
}

// evt is what happens to the packet.
type evt struct {
	name string
	ack  []byte // nil: timeout
	ok   bool
}

var evts = []evt{
	{"ack", okAck, true},
	{"async ack", chantypes.NewResultAcknowledgement([]byte("other")).Acknowledgement(), true},
	{"error ack", chantypes.NewErrorAcknowledgement(fmt.Errorf("x")).Acknowledgement(), false},
	{"malformed ack", []byte("{"), true},
	{"timeout", nil, false},
}

// settle delivers the outcome of a packet that was sent before.
func (l *lab) settle(ctx sdk.Context, k link, data []byte, e evt) error {
	err := l.handle(ctx, l.outcome(ctx, k, data, e))
	if err == nil && !l.settled(ctx, k) {
		return fmt.Errorf("the packet is not settled")
	}
	return err
}

func (l *lab) settled(ctx sdk.Context, k link) bool {
	return !l.w.App.IBCKeeper.ChannelKeeper.HasPacketCommitment(Fresh(ctx, 1<<40), k.port, k.ours, 1)
}

// outcome prepares the message that delivers the outcome.
func (l *lab) outcome(ctx sdk.Context, k link, data []byte, e evt) sdk.Msg {
	ck := l.w.App.IBCKeeper.ChannelKeeper
	const seq = 1
	to := clienttypes.NewHeight(1, 1000)
	if e.ack == nil {
		to = clienttypes.NewHeight(1, 1)
	}
	p := chantypes.NewPacket(data, seq, k.port, k.ours, k.port, k.theirs, to, 0)
	ck.SetPacketCommitment(ctx, k.port, k.ours, seq, chantypes.CommitPacket(l.w.App.AppCodec(), p))
	var msg sdk.Msg
	if e.ack == nil {
		msg = chantypes.NewMsgTimeout(p, 1, localhost.SentinelProof, clienttypes.NewHeight(1, 2), Acc(relayer).String())
	} else {
		ck.SetPacketReceipt(ctx, k.port, k.theirs, seq)
		ck.SetPacketAcknowledgement(ctx, k.port, k.theirs, seq, chantypes.CommitAcknowledgement(e.ack))
		msg = chantypes.NewMsgAcknowledgement(p, e.ack, localhost.SentinelProof, clienttypes.NewHeight(1, 2), Acc(relayer).String())
	}
	return msg
}

// relay delivers the outcome in a signed transaction with a gas limit.
func (s *i02) relay(kind string, e evt, t tgt, gas uint64) (uint64, string) {
	ctx := Branch(s.base)
	memo := ""
	if t.name != "" {
		Must(s.allow(ctx, t.addr, true))
		memo = s.memos(t.addr.Hex())[1].text
	}
	k, data := s.data(kind, Acc(u1).String(), memo)
	msg := s.outcome(Fresh(ctx, 1<<40), k, data, e)
	acc := s.w.App.AccountKeeper.GetAccount(ctx, rkey.Acc())
	d := s.w.DeliverOn(ctx, rkey.SignSDK(TxOpts{Msgs: []sdk.Msg{msg}, Gas: gas, Seq: acc.GetSequence(), AccNum: acc.GetAccountNumber()}))
	if d.Err == "" && !s.settled(ctx, k) {
		return d.Gas, "the packet is not settled"
	}
	return d.Gas, strings.SplitN(d.Err, "\n", 2)[0]
}

// memo2 is a memo, with the callback it asks for.
type memo2 struct {
	text string
	id   *big.Int // nil: none
	grey bool     // either none or this one
}

func (s *i02) memos(c string) []memo2 {
	cb := func(id, extra string) string {
		return `{"evm":{"async_callback":{"id":` + id + `,"contract_address":"` + c + `"}` + extra + `}}`
	}
	n := func(x string) *big.Int { i, _ := new(big.Int).SetString(x, 10); return i }
	out := []memo2{}
	for _, id := range []string{"0", "1", "7", "9007199254740993", "18446744073709551615", "1152921504606846977"} {
		out = append(out, memo2{text: cb(id, ""), id: n(id)})
	}
	for _, id := range []string{"-1", "18446744073709551616", "1.5", `"1"`, "[]", "{}", "true", "1e30"} {
		out = append(out, memo2{text: cb(id, "")})
	}
	msg := `,"message":{"contract_addr":"` + worker.Hex() + `","input":"0x"}`
	return append(out,
		memo2{text: cb("1e1", ""), id: n("10"), grey: true},
		memo2{text: cb("null", ""), id: n("0"), grey: true},
		memo2{text: cb("3", msg), id: n("3")},
		memo2{text: cb("3", `,"message":null`), id: n("3")},
		memo2{text: cb("3", `,"message":5`), id: n("3"), grey: true},
		memo2{text: cb("3", `,"other":5`), id: n("3"), grey: true},
		memo2{text: `{"x":1,` + cb("4", "")[1:], id: n("4")},
		memo2{text: `{"evm":{"async_callback":{"contract_address":"` + c + `"}}}`, id: n("0"), grey: true},
		memo2{text: `{"evm":{"async_callback":{"id":1}}}`},
		memo2{text: `{"evm":{"async_callback":{"id":1,"contract_address":""}}}`},
		memo2{text: `{"evm":{"async_callback":{"id":1,"contract_address":"zz"}}}`},
		memo2{text: `{"evm":{"async_callback":{"id":1,"contract_address":5}}}`},
		memo2{text: `{"evm":{"async_callback":{"id":1,"contract_address":"` + c + `00"}}}`},
		memo2{text: `{"evm":{"async_callback":null}}`},
		memo2{text: `{"evm":{"async_callback":5}}`},
		memo2{text: `{"evm":{"async_callback":[1]}}`},
		memo2{text: `{"evm":{}}`}, memo2{text: `{"evm":5}`}, memo2{text: `{"evm":null}`},
		memo2{text: `{"wasm":{"async_callback":{"id":1,"contract_address":"` + c + `"}}}`},
		memo2{text: `{"async_callback":{"id":1,"contract_address":"` + c + `"}}`},
		memo2{text: "{"}, memo2{text: cb("1", "") + "x"}, memo2{text: "[" + cb("1", "") + "]"},
	)
}

type i02case struct {
	kind, sender string
	e            evt
	t            tgt
	spell        string
	allowed      bool
	m            memo2
}

func (c i02case) String() string {
	return fmt.Sprintf("%s from %q, %s, contract %s (%s) allowed=%v, memo %s", c.kind, c.sender, c.e.name, c.t.name, c.spell, c.allowed, c.m.text)
}

func (s *i02) data(kind, sender, memo string) (link, []byte) {
	switch kind {
	case "own tokens":
		return s.t1, s.ft(FeeDenom, "10", sender, "remote", memo)
	case "vouchers":
		return s.t1, s.ft(tport+"/"+s.t1.ours+"/uremote", "10", sender, "remote", memo)
	case "NFT vouchers":
		return s.n1, s.nft(nport+"/"+s.n1.ours+"/remote", sender, "remote", memo, "n1", "n2")
	}
	return s.n1, s.nft(s.ecls, sender, "remote", memo, "5", "6")
}

func (s *i02) run(c i02case) string {
	set := func() sdk.Context {
		ctx := Branch(s.base)
		if c.allowed {
			Must(s.allow(ctx, c.t.addr, true))
		}
		return Fresh(ctx, 20_000_000)
	}
	// the same packet without a callback
	ref := set()
	k, data := s.data(c.kind, c.sender, "")
	refErr := s.settle(ref, k, data, c.e)
	ctx := set()
	k, data = s.data(c.kind, c.sender, c.m.text)
	err := s.settle(ctx, k, data, c.e)
	if (err == nil) != (refErr == nil) {
		return fmt.Sprintf("settles with %v, without the callback it is %v", err, refErr)
	}
	if refErr != nil {
		if s.w.DigestStores(ctx, "ibc") != s.w.DigestStores(ref, "ibc") {
			return "a refused packet leaves state behind"
		}
		return ""
	}
	plain := s.w.DigestStores(ref, "ibc")
	got := s.w.DigestStores(ctx, "ibc")
	if c.m.id != nil && c.allowed {
		in := pack("ibc_timeout(uint64)", c.m.id)
		if c.e.ack != nil {
			f := 0
			if c.e.ok {
				f = 1
			}
			in = pack("ibc_ack(uint64,bool)", c.m.id, f)
		}
		refBal := s.w.Bal(ref, u1, FeeDenom)
		e := s.handle(Fresh(ref, 20_000_000), &evmtypes.MsgCall{Sender: c.sender, ContractAddr: c.t.addr.Hex(), Input: hexutil.Encode(in)})
		if e == nil {
			if c.m.grey && got == plain {
				return ""
			}
			if want := s.w.DigestStores(ref, "ibc"); got != want {
				a, b := s.w.DumpAll(ref), s.w.DumpAll(ctx)
				for x := range a {
					if strings.HasPrefix(x, "ibc/") {
						delete(a, x)
					}
				}
				for x := range b {
					if strings.HasPrefix(x, "ibc/") {
						delete(b, x)
					}
				}
				return "the state is not that of the settled packet and then the callback: " + DiffMaps(a, b)
			}
			if strings.HasPrefix(c.t.name, "notes") || c.t.name == "sends" {
				sl := func(i int64) *big.Int { return s.slot(ctx, c.t.addr, i).Big() }
				flag := new(big.Int)
				if c.e.ok {
					flag.SetInt64(1)
				}
				if sl(4).Int64() != 1 || sl(2).Cmp(c.m.id) != 0 || sl(3).Cmp(flag) != 0 || common.BigToAddress(sl(0)) != u1 || sl(5).Int64() != int64(len(in)) {
					return fmt.Sprintf("%s callbacks, the last with identifier %s, flag %s as %x", sl(4), sl(2), sl(3), sl(0))
				}
				if sl(6).Cmp(refBal) != 0 {
					return fmt.Sprintf("the sender held %s during the callback, %s after the packet was settled", sl(6), refBal)
				}
			}
			return ""
		}
	}
	if got != plain {
		return "something is left behind by a callback that is not to run or fails: " + DiffMaps(s.w.DumpAll(ref), s.w.DumpAll(ctx))
	}
	return ""
}

// TestI02 decides that callbacks never disturb the settlement of packets.
func TestI02(t *testing.T) {
	Run("I02", "bounded", func(c *Check) {
		senders := []string{Acc(u1).String(), strings.ToUpper(Acc(u1).String()), u1.Hex(), "", Acc(nobody).String()}
		if !c.Thorough() {
			senders = senders[:3]
		}
		l := newI02()
		c.Note("contracts", fmt.Sprint(l.tgts))
		c.Note("memos", len(l.memos("x")))
		Parallel(c, 0, func(i int) *i02 {
			if i == 0 {
				return l
			}
			return newI02()
		}, func(yield func(i02case) bool) {
			for _, kind := range []string{"own tokens", "vouchers", "NFT vouchers", "own NFTs"} {
				for i, snd := range senders {
					for _, e := range evts {
						for j, t := range l.tgts {
							for _, sp := range []string{t.addr.Hex(), strings.ToLower(t.addr.Hex()[2:]), Acc(t.addr).String()} {
								for _, ok := range []bool{true, false} {
									for n, m := range l.memos(sp) {
										if (i > 0 || sp != t.addr.Hex() || j > 0 && (!ok || n > 3)) && n > 1 && !c.Thorough() {
											continue
										}
										if !yield(i02case{kind, snd, e, t, sp, ok, m}) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}, func(s *i02, x i02case) {
			c.Exec(x.String())
			c.Trans(1)
			c.Validated(1)
			if d := s.run(x); d != "" {
				c.Violate("settle "+x.e.name+" "+x.t.name, x.String()+" => "+d, x.String(), func() string { return s.run(x) })
			}
		})
		// in real transactions of relayers: a callback that costs anything never keeps a packet from
		// being settled, once the gas suffices to settle it
		for _, kind := range []string{"own tokens", "vouchers", "NFT vouchers", "own NFTs"} {
			for _, e := range evts {
				need, r := l.relay(kind, e, tgt{}, 20_000_000)
				if e.name == "malformed ack" {
					continue
				}
				if r != "" {
					c.Violate("relay", kind+", "+e.name+" without a callback => "+r, kind, nil)
					continue
				}
				for _, t := range l.tgts {
					for _, g := range []uint64{30_000, 50_000, 100_000, 300_000, 1_000_000, 10_000_000} {
						name := fmt.Sprintf("%s, %s, contract %s, %d gas more than it takes to settle", kind, e.name, t.name, g)
						run := func() string {
							_, r := l.relay(kind, e, t, need+g)
							return r
						}
						c.Exec(name)
						c.Trans(1)
						if d := run(); d != "" {
							c.Violate("relay "+t.name, name+" => "+d, name, run)
						}
					}
				}
			}
		}
	})
}

var (
	_ = transfertypes.ModuleName
	_ = nfttypes.ModuleName
)
