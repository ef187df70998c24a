package hooks

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"

	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	nfttypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// i01m is the model: who holds what, who may take what, what the worker recorded.
type i01m struct {
	bal    map[string]int64          // denom|holder
	allow  map[string]int64          // denom|owner|spender
	nft    map[string]common.Address // class|id
	appr   map[string]common.Address // class|id
	ok     map[common.Address]bool   // allowed contracts
	caller common.Hash
	value  int64
	count  int64
}

func (m *i01m) clone() *i01m {
	n := *m
	n.bal, n.allow = map[string]int64{}, map[string]int64{}
	n.nft, n.appr, n.ok = map[string]common.Address{}, map[string]common.Address{}, map[common.Address]bool{}
	for k, v := range m.bal {
		n.bal[k] = v
	}
	for k, v := range m.allow {
		n.allow[k] = v
	}
	for k, v := range m.nft {
		n.nft[k] = v
	}
	for k, v := range m.appr {
		n.appr[k] = v
	}
	for k, v := range m.ok {
		n.ok[k] = v
	}
	return &n
}

func bk(d string, a common.Address) string { return d + "|" + a.Hex() }

func (m *i01m) move(d string, from, to common.Address, n int64) bool {
	if m.bal[bk(d, from)] < n {
		return false
	}
	m.bal[bk(d, from)] -= n
	m.bal[bk(d, to)] += n
	return true
}

func (m *i01m) canon() string {
	var s []string
	for k, v := range m.bal {
		if v != 0 {
			s = append(s, fmt.Sprint("b", k, v))
		}
	}
	for k, v := range m.allow {
		if v != 0 {
			s = append(s, fmt.Sprint("a", k, v))
		}
	}
	for k, v := range m.nft {
		s = append(s, fmt.Sprint("n", k, v))
	}
	for k, v := range m.appr {
		s = append(s, fmt.Sprint("p", k, v))
	}
	for k, v := range m.ok {
		if v {
			s = append(s, fmt.Sprint("o", k))
		}
	}
	sort.Strings(s)
	return fmt.Sprint(m.caller, m.value, m.count, s)
}

// act is what a call does: its input and its effect on the model; by is the caller.
type act struct {
	name string
	in   func() []byte
	do   func(m *i01m, by common.Address) bool
}

// call is a call instruction.
type call struct {
	name   string
	to     common.Address
	spell  string // how the memo writes it
	value  int64
	rawVal string
	rawIn  string // instead of the act's input
	bad    bool   // can not be executed
	act    act
}

type i01 struct {
	*lab
	m0      *i01m
	problem string
}

func (s *i01) Base() (sdk.Context, *i01m) { return s.base, s.m0 }
func (s *i01) Canon(m *i01m) string       { return m.canon() }
func (s *i01) Digest(ctx sdk.Context) string {
	return s.w.DigestStores(ctx, "ibc")
}
func (s *i01) After(ctx sdk.Context, n string, err error) string { return s.problem }

func (s *i01) holders() []common.Address {
	var out []common.Address
	for _, k := range []link{s.t1, s.t2, s.n1} {
		for _, r := range remotes {
			out = append(out, common.BytesToAddress(derived(k.ours, r)))
		}
	}
	out = append(out, u1, u2, u3, worker, nobody, reverter,
		common.BytesToAddress(transfertypes.GetEscrowAddress(tport, s.t1.ours)),
		common.BytesToAddress(transfertypes.GetEscrowAddress(tport, s.t2.ours)))
	return out
}

var remotes = []string{"rem-a", "rem-b"}

// what was observed without a finding
var looked sync.Map

func (s *i01) Observe(ctx sdk.Context, m *i01m) string {
	key := sha256.Sum256([]byte(m.canon() + s.Digest(ctx)))
	if _, ok := looked.Load(key); ok {
		return ""
	}
	d := s.observe(ctx, m)
	if d == "" {
		looked.Store(key, true)
	}
	return d
}

func (s *i01) observe(ctx sdk.Context, m *i01m) string {
	ctx = Fresh(ctx, 1<<50)
	if h := s.slot(ctx, worker, 0); h != m.caller {
		return fmt.Sprintf("the contract was called by %s, expected %s", h, m.caller)
	}
	if h := s.slot(ctx, worker, 1).Big().Int64(); h != m.value {
		return fmt.Sprintf("the contract was sent %d, expected %d", h, m.value)
	}
	if h := s.slot(ctx, worker, 2).Big().Int64(); h != m.count {
		return fmt.Sprintf("the contract was called %d times, expected %d", h, m.count)
	}
	tok := map[string]common.Address{FeeDenom: s.saddr, s.vdenom: s.vaddr, s.tdenom: s.taddr}
	hs := s.holders()
	for d, t := range tok {
		for _, a := range hs {
			if b := new(big.Int).SetBytes(s.ask(ctx, t, pack("balanceOf(address)", a))).Int64(); b != m.bal[bk(d, a)] {
				return fmt.Sprintf("%s holds %d of %s, expected %d", s.who(a), b, d, m.bal[bk(d, a)])
			}
		}
		for _, a := range hs[:4] {
			for _, p := range []common.Address{worker, reverter, nobody, u3, {}} {
				if b := new(big.Int).SetBytes(s.ask(ctx, t, pack("allowance(address,address)", a, p))).Int64(); b != m.allow[bk(bk(d, a), p)] {
					return fmt.Sprintf("%s may take %d of %s from %s, expected %d", s.who(p), b, d, s.who(a), m.allow[bk(bk(d, a), p)])
				}
			}
		}
	}
	for k, o := range m.nft {
		c, id, _ := strings.Cut(k, "|")
		t := s.naddr
		if c == s.ecls {
			t = s.eaddr
		}
		n, _ := new(big.Int).SetString(id, 10)
		if g := common.BytesToAddress(s.ask(ctx, t, pack("ownerOf(uint256)", n))); g != o {
			return fmt.Sprintf("token %s belongs to %s, expected %s", k, s.who(g), s.who(o))
		}
		if g := common.BytesToAddress(s.ask(ctx, t, pack("getApproved(uint256)", n))); o != (common.Address{}) && g != m.appr[k] {
			return fmt.Sprintf("token %s may be taken by %s, expected %s", k, s.who(g), s.who(m.appr[k]))
		}
	}
	return ""
}

func (s *i01) who(a common.Address) string {
	for _, k := range []link{s.t1, s.t2, s.n1} {
		for _, r := range remotes {
			if a == common.BytesToAddress(derived(k.ours, r)) {
				return fmt.Sprintf("<%s/%s>", k.ours, r)
			}
		}
	}
	for n, x := range map[string]common.Address{"u1": u1, "u2": u2, "u3": u3, "worker": worker, "nobody": nobody, "reverter": reverter, "burner": burner, "token S": s.saddr, "token V": s.vaddr, "class N": s.naddr, "class E": s.eaddr} {
		if a == x {
			return n
		}
	}
	return a.Hex()
}

// inner is a call that the worker makes.
func inner(to common.Address, in []byte) func() []byte {
	return func() []byte { return append(append([]byte{}, to.Bytes()...), in...) }
}

// record is what the worker always does.
func record(m *i01m, by common.Address, v int64) {
	m.caller, m.value = common.BytesToHash(by.Bytes()), v
	m.count++
}

func (s *i01) spells(a common.Address) map[string]string {
	return map[string]string{
		"checksum": a.Hex(), "lower": strings.ToLower(a.Hex()), "bare": strings.ToLower(a.Hex()[2:]), "bech32": Acc(a).String(),
		"upper bech32": strings.ToUpper(Acc(a).String()),
		"long bech32":  sdk.AccAddress(append(make([]byte, 12), a.Bytes()...)).String(),
	}
}

func (s *i01) memo(c call) string {
	msg := map[string]any{"sender": Acc(u1).String(), "contract_addr": c.spell, "input": hexutil.Encode(c.act.in())}
	if c.rawIn != "" {
		msg["input"] = c.rawIn
	}
	if c.value != 0 {
		msg["value"] = fmt.Sprint(c.value)
	}
	if c.rawVal != "" {
		msg["value"] = c.rawVal
	}
	bz, err := json.Marshal(map[string]any{"evm": map[string]any{"message": msg}})
	Must(err)
	return string(bz)
}

// calls are the calls that packets carry; tok is the token that came, ids the NFTs.
func (s *i01) calls(k link, denom string, taddr common.Address, amt int64) []call {
	nothing := act{"nothing", func() []byte { return nil }, func(m *i01m, by common.Address) bool { return true }}
	pull := func(name string, d string, t, from common.Address, n int64) act {
		return act{name, inner(t, pack("transferFrom(address,address,uint256)", from, worker, int(n))), func(m *i01m, by common.Address) bool {
			key := bk(bk(d, from), worker)
			if m.allow[key] < n || !m.move(d, from, worker, n) {
				return false
			}
			m.allow[key] -= n
			return true
		}}
	}
	var out []call
	add := func(c call) {
		if c.spell == "" {
			c.spell = c.to.Hex()
		}
		out = append(out, c)
	}
	me := common.BytesToAddress(derived(k.ours, "rem-a"))
	other := common.BytesToAddress(derived(k.ours, "rem-b"))
	add(call{name: "note", to: worker, act: nothing})
	add(call{name: "take all", to: worker, act: pull("", denom, taddr, me, amt)})
	add(call{name: "take part", to: worker, act: pull("", denom, taddr, me, amt-1)})
	add(call{name: "take more", to: worker, act: pull("", denom, taddr, me, amt+1)})
	add(call{name: "take from the other", to: worker, act: pull("", denom, taddr, other, 1)})
	add(call{name: "take from u1", to: worker, act: pull("", denom, taddr, u1, 1)})
	add(call{name: "value", to: worker, value: 2, act: nothing})
	add(call{name: "value to nobody", to: nobody, value: 1, act: nothing})
	add(call{name: "negative value", to: worker, rawVal: "-1", bad: true, act: nothing})
	add(call{name: "huge value", to: worker, rawVal: "115792089237316195423570985008687907853269984665640564039457584007913129639935", bad: true, act: nothing})
	add(call{name: "no value", to: worker, rawVal: "x", bad: true, act: nothing})
	add(call{name: "no hex", to: worker, rawIn: "0xzz", bad: true, act: nothing})
	add(call{name: "revert", to: reverter, act: act{"", func() []byte { return nil }, func(*i01m, common.Address) bool { return false }}})
	add(call{name: "burn all gas", to: burner, act: act{"", func() []byte { return nil }, func(*i01m, common.Address) bool { return false }}})
	add(call{name: "revert after note", to: worker, act: act{"", inner(reverter, nil), func(*i01m, common.Address) bool { return false }}})
	// the sender's own use of the token
	add(call{name: "send on", to: taddr, act: act{"", func() []byte { return pack("transfer(address,uint256)", u3, 2) }, func(m *i01m, by common.Address) bool { return m.move(denom, by, u3, 2) }}})
	// system contract: a message for the chain, as the caller
	for sp, str := range s.spells(worker) {
		if sp != "checksum" {
			add(call{name: "take part, " + sp, to: worker, spell: str, act: pull("", denom, taddr, me, amt-1)})
		}
	}
	add(call{name: "no address", to: common.Address{}, spell: "zz", bad: true, act: nothing})
	add(call{name: "empty address", to: common.Address{}, spell: " ", bad: true, act: nothing})
	return out
}

type imop = MOp[*i01m]

// recvOp receives a packet; it must be acknowledged with success exactly if the model agrees.
func (s *i01) recvOp(name string, k link, data func() []byte, mdl func(m *i01m) bool) imop {
	return imop{Name: name, Model: func(m *i01m) (*i01m, bool) {
		n := m.clone()
		ok := mdl(n)
		return n, ok
	}, Real: func(ctx sdk.Context) error {
		s.problem = ""
		before := s.Digest(ctx)
		switch r := s.recv(ctx, k, data()); r {
		case "":
			return nil
		case "error":
			if after := s.Digest(ctx); after != before {
				s.problem = "state is left behind by a packet that was acknowledged with an error"
			}
			return errors.New("error acknowledgement")
		default:
			if strings.HasSuffix(name, "burn all gas") && strings.Contains(r, "out of gas") {
				// the transaction of the relayer fails as a whole
				return errors.New(r)
			}
			s.problem = r
			return errors.New(r)
		}
	}}
}

func (s *i01) Ops(m *i01m) []imop {
	var o []imop
	coin := func(tag string, k link, wire, denom string, taddr common.Address, amt int64, sender string, calls []call) {
		by := common.BytesToAddress(derived(k.ours, sender))
		fund := func(m *i01m, to common.Address) bool {
			if wire != "uremote" {
				return m.move(denom, common.BytesToAddress(transfertypes.GetEscrowAddress(tport, k.ours)), to, amt)
			}
			m.bal[bk(denom, to)] += amt
			return true
		}
		for _, c := range calls {
			c := c
			o = append(o, s.recvOp(fmt.Sprintf("%s from %s: %s", tag, sender, c.name), k, func() []byte {
				return s.ft(wire, fmt.Sprint(amt), sender, c.spell, s.memo(c))
			}, func(m *i01m) bool {
				if !m.ok[c.to] || c.bad || !fund(m, by) {
					return false
				}
				m.allow[bk(bk(denom, by), c.to)] = amt
				if c.value > 0 && !m.move(FeeDenom, by, c.to, c.value) {
					return false
				}
				if c.to == worker {
					record(m, by, c.value)
				}
				return c.act.do(m, by)
			}))
		}
	}
	vc := s.calls(s.t1, s.vdenom, s.vaddr, 10)
	sc := s.calls(s.t1, FeeDenom, s.saddr, 10)
	coin("10 V", s.t1, "uremote", s.vdenom, s.vaddr, 10, "rem-a", vc)
	back := func(k link) string { return tport + "/" + k.theirs + "/" + FeeDenom }
	coin("10 S", s.t1, back(s.t1), FeeDenom, s.saddr, 10, "rem-a", sc)
	coin("10 V", s.t1, "uremote", s.vdenom, s.vaddr, 10, "rem-b", vc[:2])
	coin("10 T", s.t1, tport+"/"+s.t1.theirs+"/"+s.tdenom, s.tdenom, s.taddr, 10, "rem-a", s.calls(s.t1, s.tdenom, s.taddr, 10)[:4])
	coin("900 S", s.t1, back(s.t1), FeeDenom, s.saddr, 900, "rem-a", sc[:1])
	// the same sender over another channel is someone else
	coin("10 S over the other channel", s.t2, back(s.t2), FeeDenom, s.saddr, 10, "rem-a", sc[:3])
	// the receiver must be the contract
	for _, r := range []string{u2.Hex(), Acc(u2).String(), Acc(worker).String(), strings.ToLower(worker.Hex()), ""} {
		r := r
		o = append(o, s.recvOp("10 V for "+r, s.t1, func() []byte { return s.ft("uremote", "10", "rem-a", r, s.memo(vc[0])) }, func(m *i01m) bool { return false }))
	}
	// no call
	plain := []string{"", "{", "[]", `"evm"`, "null", `{"a":1}`, `{"evm":null}`, `{"evm":{}}`, `{"evm":{"message":null}}`, `{"EVM":{"message":{"contract_addr":"` + worker.Hex() + `","input":"0x"}}}`, `{"evm":{"async_callback":{"id":1,"contract_address":"` + worker.Hex() + `"}}}`, `{"move":{"message":{}}}`}
	for i, x := range plain {
		x := x
		o = append(o, s.recvOp("3 V for u2: "+x, s.t1, func() []byte { return s.ft("uremote", "3", "rem-a", Acc(u2).String(), x) }, func(m *i01m) bool {
			m.bal[bk(s.vdenom, u2)] += 3
			return true
		}))
		if i < 2 {
			o = append(o, s.recvOp("0 V for u2: "+x, s.t1, func() []byte { return s.ft("uremote", "0", "rem-a", Acc(u2).String(), x) }, func(m *i01m) bool { return false }))
		}
	}
	// NFTs
	num := func(class, id string) string {
		if class == s.ncls {
			return sha(id)
		}
		return id
	}
	nft := func(tag, wire, class string, taddr common.Address, sender string, ids []string, bad bool) {
		k := s.n1
		by := common.BytesToAddress(derived(k.ours, sender))
		esc := common.BytesToAddress(nfttypes.GetEscrowAddress(nport, k.ours))
		give := func(m *i01m, to common.Address) bool {
			for _, id := range ids {
				key := class + "|" + num(class, id)
				if class == s.ecls && m.nft[key] != esc || class == s.ncls && m.nft[key] != (common.Address{}) {
					return false
				}
				m.nft[key] = to
				delete(m.appr, key)
			}
			return true
		}
		pull := func(id string, from common.Address) act {
			n, _ := new(big.Int).SetString(num(class, id), 10)
			if n == nil {
				n = new(big.Int)
			}
			return act{"", inner(taddr, pack("transferFrom(address,address,uint256)", from, worker, n)), func(m *i01m, _ common.Address) bool {
				key := class + "|" + n.String()
				if m.nft[key] != from || m.appr[key] != worker {
					return false
				}
				m.nft[key] = worker
				delete(m.appr, key)
				return true
			}}
		}
		nothing := act{"", func() []byte { return nil }, func(m *i01m, by common.Address) bool { return true }}
		last := ids[len(ids)-1]
		n, _ := new(big.Int).SetString(num(class, last), 10)
		cs := []call{
			{name: "note", to: worker, act: nothing},
			{name: "take", to: worker, act: pull(last, by)},
			{name: "take, bech32", to: worker, spell: Acc(worker).String(), act: pull(last, by)},
			{name: "take another", to: worker, act: pull("r1", by)},
			{name: "take from u1", to: worker, act: pull("s1", u1)},
			{name: "revert", to: reverter, act: act{"", func() []byte { return nil }, func(*i01m, common.Address) bool { return false }}},
			{name: "revert after note", to: worker, act: act{"", inner(reverter, nil), func(*i01m, common.Address) bool { return false }}},
			{name: "send on", to: taddr, act: act{"", func() []byte { return pack("transferFrom(address,address,uint256)", by, u3, n) }, func(m *i01m, by common.Address) bool {
				key := class + "|" + n.String()
				if m.nft[key] != by {
					return false
				}
				m.nft[key] = u3
				delete(m.appr, key)
				return true
			}}},
			{name: "negative value", to: worker, rawVal: "-1", bad: true, act: nothing},
		}
		if class == s.ecls {
			cs = append(cs[:3], cs[5:]...)
		}
		for _, c := range cs {
			c := c
			if c.spell == "" {
				c.spell = c.to.Hex()
			}
			o = append(o, s.recvOp(fmt.Sprintf("%s from %s: %s", tag, sender, c.name), k, func() []byte {
				return s.nft(wire, sender, c.spell, s.memo(c), ids...)
			}, func(m *i01m) bool {
				if bad || !m.ok[c.to] || c.bad || !give(m, by) {
					return false
				}
				for _, id := range ids {
					if c.to != by {
						m.appr[class+"|"+num(class, id)] = c.to
					}
				}
				if c.to == worker {
					record(m, by, c.value)
				}
				return c.act.do(m, by)
			}))
		}
		o = append(o, s.recvOp(fmt.Sprintf("%s from %s: wrong receiver", tag, sender), k, func() []byte {
			return s.nft(wire, sender, Acc(worker).String(), s.memo(call{to: worker, spell: worker.Hex(), act: nothing}), ids...)
		}, func(m *i01m) bool { return false }))
		o = append(o, s.recvOp(fmt.Sprintf("%s from %s: no call", tag, sender), k, func() []byte {
			return s.nft(wire, sender, Acc(u2).String(), `{"evm":{}}`, ids...)
		}, func(m *i01m) bool { return give(m, u2) }))
	}
	nft("N r1", "remote", s.ncls, s.naddr, "rem-a", []string{"r1"}, false)
	nft("N r2 r3", "remote", s.ncls, s.naddr, "rem-a", []string{"r2", "r3"}, false)
	nft("E 5", nport+"/"+s.n1.theirs+"/"+s.ecls, s.ecls, s.eaddr, "rem-a", []string{"5"}, false)
	// settings and other users
	for _, a := range []common.Address{worker, reverter, s.vaddr} {
		a := a
		for _, b := range []bool{true, false} {
			b := b
			o = append(o, imop{Name: fmt.Sprintf("allow %s %v", s.who(a), b), Model: func(m *i01m) (*i01m, bool) {
				n := m.clone()
				n.ok[a] = b
				return n, true
			}, Real: func(ctx sdk.Context) error { s.problem = ""; return s.allow(ctx, a, b) }})
		}
	}
	me := common.BytesToAddress(derived(s.t1.ours, "rem-a"))
	o = append(o, imop{Name: "u1 sends 3 S to the derived account", Model: func(m *i01m) (*i01m, bool) {
		n := m.clone()
		return n, n.move(FeeDenom, u1, me, 3)
	}, Real: func(ctx sdk.Context) error {
		s.problem = ""
		return s.handle(ctx, &banktypes.MsgSend{FromAddress: Acc(u1).String(), ToAddress: Acc(me).String(), Amount: Coins("3stake")})
	}})
	return o
}

func sha(id string) string { return number(id).String() }

func newI01() *i01 {
	s := &i01{lab: newLab()}
	m := &i01m{bal: map[string]int64{}, allow: map[string]int64{}, nft: map[string]common.Address{}, appr: map[string]common.Address{}, ok: map[common.Address]bool{}}
	m.bal[bk(FeeDenom, u1)] = 1000
	for _, k := range []link{s.t1, s.t2} {
		m.bal[bk(FeeDenom, common.BytesToAddress(transfertypes.GetEscrowAddress(tport, k.ours)))] = 500
	}
	m.bal[bk(s.vdenom, u1)] = 100
	m.bal[bk(s.tdenom, common.BytesToAddress(transfertypes.GetEscrowAddress(tport, s.t1.ours)))] = 500
	m.nft[s.ncls+"|"+sha("s1")] = u1
	for i := 5; i < 8; i++ {
		m.nft[fmt.Sprint(s.ecls, "|", i)] = common.BytesToAddress(nfttypes.GetEscrowAddress(nport, s.n1.ours))
	}
	for _, a := range []common.Address{worker, reverter, burner, nobody, s.saddr, s.naddr} {
		Must(s.allow(s.base, a, true))
		m.ok[a] = true
	}
	s.m0 = m
	return s
}

// TestI01 decides that received packets only run permitted calls, all or nothing.
func TestI01(t *testing.T) {
	Run("I01", "bounded", func(c *Check) {
		depth := Pick(c, 2, 3)
		c.Note("depth", depth)
		l := newI01()
		var names []string
		for _, o := range l.Ops(l.m0) {
			names = append(names, o.Name)
		}
		c.Note("operations", names)
		WalkOps[*i01m](c, "receive", depth, func(i int) OpSys[*i01m] {
			if i == -1 {
				return l
			}
			return newI01()
		})
		l.grey(c)
	})
}

// grey are packets whose call instruction can not be read, or that ask for something else as well:
// they are refused without a trace or treated like packets without a call.
func (s *i01) grey(c *Check) {
	good := `"message":{"contract_addr":"` + worker.Hex() + `","input":"0x"}`
	fwd := `"forward":{"receiver":"x","port":"transfer","channel":"` + s.t2.ours + `"}`
	for _, memo := range []string{
		`{"evm":5}`, `{"evm":"x"}`, `{"evm":[]}`, `{"evm":{"message":5}}`, `{"evm":{"message":"x"}}`, `{"evm":{"message":{"contract_addr":5}}}`,
		`{"evm":{"message":{"contract_addr":"` + worker.Hex() + `","input":7}}}`,
		`{"evm":{"message":{"contract_addr":"` + worker.Hex() + `","input":"0x","value":{}}}}`,
		`{"evm":{"message":{"contract_addr":"` + worker.Hex() + `","input":"0x","value":"x"}}}`,
		`{"evm":{"message":{"contract_addr":"` + worker.Hex() + `","input":"0x","access_list":5}}}`,
		`{"evm":{"async_callback":5,` + good + `}}`,
		`{"evm":{` + good + `,"async_callback":{"id":-1}}}`,
		`{"evm":{` + good + `},` + fwd + `}`,
		`{"evm":{},` + fwd + `}`,
		`{"evm":{` + good + `},"forward":{}}`,
		`{"evm":{` + good + `},"forward":5}`,
	} {
		for _, rec := range []string{worker.Hex(), Acc(worker).String()} {
			for _, isNFT := range []bool{false, true} {
				for _, denom := range []string{"uremote", tport + "/" + s.t1.theirs + "/" + FeeDenom} {
					name := fmt.Sprintf("nft=%v %s for %s: %s", isNFT, denom, rec, memo)
					run := func() string {
						ctx := Branch(s.base)
						before := s.Digest(ctx)
						k, data := s.t1, s.ft(denom, "10", "rem-a", rec, memo)
						if isNFT {
							k, data = s.n1, s.nft("remote", "rem-a", rec, memo, "g1")
						}
						switch r := s.recv(ctx, k, data); r {
						case "error":
							if s.Digest(ctx) != before {
								return "state is left behind by a packet that was acknowledged with an error"
							}
						case "", async:
							if n := s.slot(ctx, worker, 2).Big().Int64(); n != 0 && strings.Contains(memo, `"async_callback":5`) {
								return "an unreadable call was made"
							} else if n == 1 {
								if by := s.slot(ctx, worker, 0); by != common.BytesToHash(common.BytesToAddress(derived(k.ours, "rem-a")).Bytes()) {
									return "called as " + by.Hex()
								}
							} else if n > 1 {
								return "called twice"
							}
							if r == async && !strings.Contains(memo, "forward") {
								return r
							}
						default:
							return r
						}
						return ""
					}
					c.Exec(name)
					c.Trans(1)
					if d := run(); d != "" {
						c.Violate("receive", name+" => "+d, name, run)
					}
				}
			}
		}
	}
}
