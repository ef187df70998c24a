package tx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

var (
	t07probe = Addr("t07-probe")
	t07queue = Addr("t07-queue")
	t07p     = Addr("t07-p")
	t07q     = Addr("t07-q")
)

const t07words = 11

// t07code reports what an execution sees: caller, origin, value, its input (call data, or for a
// creation its own code), what four accesses cost, itself and its balance. It logs and returns it.
func t07code(creation bool) []byte {
	a := NewAsm()
	put := func(i uint64) { a.Push(i*32).Op(0x52) }
	a.Op(0x33)
	put(0)
	a.Op(0x32)
	put(1)
	a.Op(0x34)
	put(2)
	size, cp := byte(0x36), byte(0x37)
	if creation {
		size, cp = 0x38, 0x39
	}
	a.Op(size)
	put(3)
	a.Op(size).Push(0).Push(0x400).Op(cp)
	a.Op(size).Push(0x400).Op(0x20)
	put(4)
	cost := func(i uint64, push func(), op byte) {
		// GAS, access, POP, GAS, SWAP1, SUB
		a.Op(0x5a)
		push()
		a.Op(op, 0x50, 0x5a, 0x90, 0x03)
		put(i)
	}
	cost(5, func() { a.Push(0) }, 0x54)
	cost(6, func() { a.Push(1) }, 0x54)
	cost(7, func() { a.PushAddr(t07p) }, 0x3b)
	cost(8, func() { a.PushAddr(t07q) }, 0x3b)
	a.Op(0x30)
	put(9)
	a.Op(0x47)
	put(10)
	a.Push(0x77).Push(t07words*32).Push(0).Op(0xa1)
	if creation {
		a.Push(t07words*32).Push(0).Op(0xf3)
	} else {
		// the report, then the input
		a.Op(0x36).Push(0).Push(t07words*32).Op(0x37)
		a.Op(0x36).Push(t07words * 32).Op(0x01).Push(0).Op(0xf3)
	}
	return a.Bytes()
}

type t07item struct{ kind, route, value, input, list, to, salt int }

// TestT07 decides that a message executes exactly what it states and reports what came of it.
func TestT07(t *testing.T) {
	Run("T07", "model_checking", func(c *Check) {
		kinds := []string{"call", "create", "create2"}
		routes := []string{"signed", "plain key", "second message", "authz", "queued", "ethereum"}
		max := new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1))
		values := []struct {
			n string
			v *big.Int // nil: absent
		}{{"0", bi(0)}, {"1", bi(1)}, {"10^17", pow10(17)}, {"more than owned", pow10(20)}, {"2^256-1", max},
			{"-1", bi(-1)}, {"-(2^256-5)", new(big.Int).Neg(new(big.Int).Sub(max, bi(4)))}, {"absent", nil}}
		inputs := []struct {
			n  string
			s  string
			ok bool
		}{{"empty", "0x", true}, {"one byte", "0x07", true}, {"33 bytes", "0x" + strings.Repeat("a1", 33), true}, {"capitals", "0xAB00", true},
			{"4 kB of zeros", "0x" + strings.Repeat("00", 4096), true}, {"no prefix", "0102", false}, {"odd", "0x010", false}, {"nothing", "", false}, {"not hex", "0xzz", false}}
		if !c.Thorough() {
			inputs = append(inputs[:5:5], inputs[5], inputs[7])
		}
		salts := []uint64{0, 1, 1<<64 - 1}
		spell := []string{"checksummed", "lower case", "no prefix", "bech32"}
		lists := []struct {
			n    string
			make func(self common.Address) coretypes.AccessList
			warm [4]bool
		}{
			{"none", func(common.Address) coretypes.AccessList { return nil }, [4]bool{}},
			{"slot 0", func(s common.Address) coretypes.AccessList {
				return coretypes.AccessList{{Address: s, StorageKeys: []common.Hash{{}}}}
			}, [4]bool{0: true}},
			{"slot 1, P", func(s common.Address) coretypes.AccessList {
				return coretypes.AccessList{{Address: s, StorageKeys: []common.Hash{{31: 1}}}, {Address: t07p, StorageKeys: []common.Hash{}}}
			}, [4]bool{1: true, 2: true}},
			{"self without keys, Q", func(s common.Address) coretypes.AccessList {
				return coretypes.AccessList{{Address: s, StorageKeys: []common.Hash{}}, {Address: t07q, StorageKeys: []common.Hash{{}}}}
			}, [4]bool{3: true}},
			{"P twice, self twice", func(s common.Address) coretypes.AccessList {
				return coretypes.AccessList{{Address: t07p, StorageKeys: []common.Hash{}}, {Address: t07p, StorageKeys: []common.Hash{{31: 1}}}, {Address: s, StorageKeys: []common.Hash{{}, {}}}, {Address: s, StorageKeys: []common.Hash{{31: 1}}}}
			}, [4]bool{true, true, true, false}},
			{"another's slots", func(s common.Address) coretypes.AccessList {
				return coretypes.AccessList{{Address: sink, StorageKeys: []common.Hash{{}, {31: 1}}}, {Address: s, StorageKeys: []common.Hash{{0: 1}}}}
			}, [4]bool{}},
			{"forty", func(s common.Address) coretypes.AccessList {
				l := coretypes.AccessList{}
				for i := 0; i < 40; i++ {
					l = append(l, coretypes.AccessTuple{Address: common.Address{18: 9, 19: byte(i)}, StorageKeys: []common.Hash{{31: byte(i)}}})
				}
				return append(l, coretypes.AccessTuple{Address: s, StorageKeys: []common.Hash{{}, {31: 1}}}, coretypes.AccessTuple{Address: t07q, StorageKeys: []common.Hash{}})
			}, [4]bool{true, true, false, true}},
		}
		cosmos, err := i_cosmos.ICosmosMetaData.GetAbi()
		Must(err)
		judge := func(l *lab, it t07item) string {
			ctx := Branch(l.base)
			l.w.SetCode(ctx, t07probe, t07code(false))
			key := alice
			caller := alice.Addr
			switch routes[it.route] {
			case "plain key":
				key, caller = carol, carol.Addr
			case "queued":
				caller = t07queue
				l.w.SetCode(ctx, t07queue, []byte{0})
				l.w.FundAcc(ctx, t07queue, FeeDenom, 8_999_999_999_999_999_000)
			}
			seq := l.w.App.AccountKeeper.GetAccount(ctx, caller.Bytes()).GetSequence()
			code := append(t07code(true), make([]byte, 0)...)
			in := inputs[it.input]
			var msg sdk.Msg
			val := math.Int{}
			if v := values[it.value].v; v != nil {
				val = math.NewIntFromBigInt(v)
			}
			self := t07probe
			var data []byte
			if in.ok {
				data = common.FromHex(in.s)
			}
			codeHex := in.s
			if kinds[it.kind] != "call" && in.ok {
				data = append(append([]byte{}, code...), data...)
				codeHex = hexutil.Encode(data)
				if in.n == "capitals" {
					codeHex = "0x" + strings.ToUpper(codeHex[2:])
				}
			}
			switch kinds[it.kind] {
			case "create":
				n := seq
				if routes[it.route] == "second message" {
					n++ // the first one is a call
				}
				self = crypto.CreateAddress(caller, n)
			case "create2":
				var s32 [32]byte
				new(big.Int).SetUint64(salts[it.salt]).FillBytes(s32[:])
				self = crypto.CreateAddress2(caller, s32, crypto.Keccak256(data))
			}
			al := lists[it.list].make(self)
			var cal []evmtypes.AccessTuple
			for _, x := range al {
				y := evmtypes.AccessTuple{Address: x.Address.Hex()}
				for _, k := range x.StorageKeys {
					y.StorageKeys = append(y.StorageKeys, k.Hex())
				}
				cal = append(cal, y)
			}
			to := self.Hex()
			switch spell[it.to] {
			case "lower case":
				to = strings.ToLower(to)
			case "no prefix":
				to = to[2:]
			case "bech32":
				to = Acc(self).String()
			}
			sender := Acc(caller).String()
			switch kinds[it.kind] {
			case "call":
				msg = &evmtypes.MsgCall{Sender: sender, ContractAddr: to, Input: codeHex, Value: val, AccessList: cal}
			case "create":
				msg = &evmtypes.MsgCreate{Sender: sender, Code: codeHex, Value: val, AccessList: cal}
			case "create2":
				msg = &evmtypes.MsgCreate2{Sender: sender, Code: codeHex, Value: val, Salt: salts[it.salt], AccessList: cal}
			}
			want := bi(0)
			if v := values[it.value].v; v != nil {
				want = v
			}
			ok := in.ok && want.Sign() >= 0 && want.Cmp(pow10(18)) < 0
			b0, t0 := l.w.Bal(ctx, caller, FeeDenom), l.w.Bal(ctx, self, FeeDenom)
			fee := bi(0)

			// run it
			var tx sdk.Tx
			opt := func(k *Key, msgs ...sdk.Msg) TxOpts {
				return TxOpts{Msgs: msgs, Gas: 6_000_000, Fee: nil, Seq: l.seq(ctx, k), AccNum: l.num(ctx, k)}
			}
			switch routes[it.route] {
			case "signed", "plain key":
				tx = key.SignSDK(opt(key, msg))
			case "second message":
				tx = key.SignSDK(opt(key, msgCall(key, sink, 0), msg))
			case "authz":
				Must(l.w.App.AuthzKeeper.SaveGrant(ctx, bob.Acc(), alice.Acc(), authz.NewGenericAuthorization(sdk.MsgTypeURL(msg)), nil))
				e := authz.NewMsgExec(bob.Acc(), []sdk.Msg{msg})
				tx = bob.SignSDK(opt(bob, &e))
			case "queued":
				bz, err := l.w.App.AppCodec().MarshalInterfaceJSON(msg)
				if err != nil {
					return ""
				}
				if values[it.value].v == nil {
					var m map[string]any
					Must(json.Unmarshal(bz, &m))
					delete(m, "value")
					bz, err = json.Marshal(m)
					Must(err)
				}
				in, err := cosmos.Pack("execute_cosmos", string(bz))
				Must(err)
				a := NewAsm()
				n := uint64(len(in))
				a.Data("in", in)
				a.Push(n).PushLabel("in").Push(0).Op(0x39)
				a.Push(0).Push(0).Push(n).Push(0).Push(0).Push(0xf1).Op(0x5a, 0xf1).Op(0x15).PushLabel("bad").Op(0x57, 0x00).Label("bad").Op(0xfe)
				l.w.SetCode(ctx, t07queue, a.Bytes())
				tx = bob.SignSDK(opt(bob, msgCall(bob, t07queue, 0)))
			case "ethereum":
				var dst *common.Address
				if kinds[it.kind] == "call" {
					dst = &self
				}
				typ := 2
				if it.to == 1 {
					typ = 1
				}
				e := alice.SignEth(ethTx(typ, seq, dst, want, bi(0), bi(0), 6_000_000, data, al))
				var err error
				if tx, err = l.w.EthToSDK(ctx, e); err != nil {
					if ok {
						return "refused: " + err.Error()
					}
					return ""
				}
			}
			d := l.w.DeliverOn(ctx, tx)
			if ok != (d.Err == "") {
				return fmt.Sprintf("outcome: expected success=%v, error %q", ok, d.Err)
			}
			c.Outcome(fmt.Sprint(kinds[it.kind], " ", routes[it.route], " ok=", ok))
			moved := bi(0)
			if ok {
				moved = want
			}
			b1, t1 := l.w.Bal(ctx, caller, FeeDenom), l.w.Bal(ctx, self, FeeDenom)
			if x := new(big.Int).Sub(b0, b1); x.Cmp(new(big.Int).Add(moved, fee)) != 0 {
				return fmt.Sprintf("the sender paid %s, stated %s", x, moved)
			}
			if x := new(big.Int).Sub(t1, t0); x.Cmp(moved) != 0 {
				return fmt.Sprintf("the target received %s, stated %s", x, moved)
			}
			if !ok {
				return ""
			}
			// what the execution saw
			var rep []byte
			for _, e := range d.Events {
				if e.Type != evmtypes.EventTypeEVM {
					continue
				}
				for _, a := range e.Attributes {
					if a.Key != evmtypes.AttributeKeyLog {
						continue
					}
					var lg evmtypes.Log
					Must(json.Unmarshal([]byte(a.Value), &lg))
					if len(lg.Topics) == 1 && common.HexToHash(lg.Topics[0]) == (common.Hash{31: 0x77}) {
						if rep != nil {
							return "executed twice"
						}
						if common.HexToAddress(lg.Address) != self {
							return "the log comes from " + lg.Address
						}
						rep = common.FromHex(lg.Data)
					}
				}
			}
			if len(rep) != t07words*32 {
				return fmt.Sprintf("no report: %x", rep)
			}
			word := func(i int) common.Hash { return common.BytesToHash(rep[i*32 : i*32+32]) }
			num := func(i int) *big.Int { return word(i).Big() }
			switch {
			case common.BytesToAddress(rep[:32]) != caller:
				return "caller " + word(0).Hex()
			case num(2).Cmp(want) != 0:
				return fmt.Sprintf("value %s, stated %s", num(2), want)
			case num(3).Uint64() != uint64(len(data)) || word(4) != crypto.Keccak256Hash(data):
				return fmt.Sprintf("another input of %s bytes", num(3))
			case common.BytesToAddress(rep[9*32:10*32]) != self:
				return "executed as " + word(9).Hex()
			case num(10).Cmp(t1) != 0:
				return fmt.Sprintf("saw its balance as %s, it is %s", num(10), t1)
			case common.BytesToAddress(rep[32:64]) != caller:
				return "origin " + word(1).Hex()
			}
			for i, warm := range lists[it.list].warm {
				if got := num(5+i).Uint64() < 1000; got != warm {
					return fmt.Sprintf("access %d cost %s gas, stated to be in the access list: %v", i, num(5+i), warm)
				}
			}
			// what the response says
			if r := routes[it.route]; r == "signed" || r == "plain key" || r == "second message" || r == "ethereum" {
				var md sdk.TxMsgData
				Must(md.Unmarshal(d.Data))
				last := md.MsgResponses[len(md.MsgResponses)-1]
				var result, addr string
				var logs []evmtypes.Log
				switch kinds[it.kind] {
				case "call":
					var r evmtypes.MsgCallResponse
					Must(r.Unmarshal(last.Value))
					result, logs, addr = r.Result, r.Logs, self.Hex()
				case "create":
					var r evmtypes.MsgCreateResponse
					Must(r.Unmarshal(last.Value))
					result, logs, addr = r.Result, r.Logs, r.ContractAddr
				case "create2":
					var r evmtypes.MsgCreate2Response
					Must(r.Unmarshal(last.Value))
					result, logs, addr = r.Result, r.Logs, r.ContractAddr
				}
				exp := append([]byte{}, rep...)
				if kinds[it.kind] == "call" {
					exp = append(exp, data...)
				}
				if result != hexutil.Encode(exp) {
					return fmt.Sprintf("the response says %.80s, the contract returned %.80s", result, hexutil.Encode(exp))
				}
				if common.HexToAddress(addr) != self {
					return "the response says the contract is " + addr + ", it is " + self.Hex()
				}
				n := 0
				for _, lg := range logs {
					if common.HexToAddress(lg.Address) == self {
						n++
						if !bytes.Equal(common.FromHex(lg.Data), rep) {
							return "the response has another log"
						}
					}
				}
				if n != 1 {
					return fmt.Sprintf("the response has %d of 1 logs", n)
				}
			}
			if kinds[it.kind] != "call" {
				db, err := l.w.K.NewStateDB(ctx, nil, evmtypes.Fee{})
				Must(err)
				if !bytes.Equal(db.GetCode(self), rep) {
					return "the deployed code is not what the creation returned"
				}
			}
			return ""
		}
		name := func(it t07item) string {
			s := fmt.Sprintf("%s route=%s value=%s input=%s list=%s", kinds[it.kind], routes[it.route], values[it.value].n, inputs[it.input].n, lists[it.list].n)
			if it.kind == 0 {
				s += " target=" + spell[it.to]
			}
			if it.kind == 2 {
				s += fmt.Sprint(" salt=", salts[it.salt])
			}
			return s
		}
		n := 0
		Parallel(c, 0, func(int) *lab { return newLab([]int{18}) }, func(yield func(t07item) bool) {
			for k := range kinds {
				nt, ns := 1, 1
				if k == 0 {
					nt = len(spell)
				}
				if k == 2 {
					ns = len(salts)
				}
				if !Product([]int{len(routes), len(values), len(inputs), len(lists), nt, ns}, func(x []int) bool {
					it := t07item{k, x[0], x[1], x[2], x[3], x[4], x[5]}
					if r := routes[it.route]; r == "ethereum" {
						v := values[it.value].v
						if k == 2 || v == nil || v.Sign() < 0 || !inputs[it.input].ok || it.to > 1 || (k > 0 && it.to > 0) {
							return true // cannot be signed
						}
					}
					n++
					return yield(it)
				}) {
					return
				}
			}
		}, func(l *lab, it t07item) {
			nm := name(it)
			c.Exec(nm)
			c.Trans(1)
			c.State(nm)
			if d := judge(l, it); d != "" {
				sig := fmt.Sprintf("%s-%s-%s", kinds[it.kind], routes[it.route], strings.Fields(d)[0])
				c.Violate(sig, nm+": "+d, nm, func() string { return judge(newLab([]int{18}), it) })
				return
			}
			c.Validated(1)
		})
		c.Note("messages", n)
		c.Note("alphabet", "messages: call, create, create2; routes: signed with an Ethereum key, with a plain key, as second message, on behalf of another account (authz), queued by a contract, converted from an Ethereum transaction; values zero to beyond the balance and beyond 256 bits, negative, absent; inputs empty to 4 kB and malformed; access lists of 0 to 42 entries with duplicates; target spellings; salts")
		c.Assume("oracle: the message's own fields; an access is in the list exactly when it is cheap (EIP-2930)")
		c.Assume("an access list entry that is no address, and a target written as an address longer than 20 bytes, have no stated meaning and are left out")
	})
}
