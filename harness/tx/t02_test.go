package tx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"cosmossdk.io/math"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"cosmossdk.io/x/feegrant"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// content is what a transaction asks for, read from its chain form without the chain's code.
type content struct {
	kind   string
	sender string
	to     string
	value  string
	input  string
	al     string
	gas    uint64
	fee    string
	seq    uint64
}

// form is a decoded transaction, free to be changed.
type form struct {
	body txtypes.TxBody
	auth txtypes.AuthInfo
	sigs [][]byte
	msgs []sdk.Msg
}

func (f *form) clone() *form {
	n := &form{body: f.body, auth: f.auth}
	n.auth.SignerInfos = nil
	for _, s := range f.auth.SignerInfos {
		x := *s
		n.auth.SignerInfos = append(n.auth.SignerInfos, &x)
	}
	if f.auth.Fee != nil {
		x := *f.auth.Fee
		x.Amount = append(sdk.Coins{}, x.Amount...)
		n.auth.Fee = &x
	}
	for _, s := range f.sigs {
		n.sigs = append(n.sigs, append([]byte{}, s...))
	}
	for _, m := range f.msgs {
		n.msgs = append(n.msgs, cloneMsg(m))
	}
	return n
}

func cloneMsg(m sdk.Msg) sdk.Msg {
	switch m := m.(type) {
	case *evmtypes.MsgCall:
		x := *m
		x.AccessList = append([]evmtypes.AccessTuple{}, m.AccessList...)
		return &x
	case *evmtypes.MsgCreate:
		x := *m
		x.AccessList = append([]evmtypes.AccessTuple{}, m.AccessList...)
		return &x
	}
	return m
}

func (f *form) encode() ([]byte, error) {
	b := f.body
	b.Messages = nil
	for _, m := range f.msgs {
		a, err := codectypes.NewAnyWithValue(m)
		if err != nil {
			return nil, err
		}
		b.Messages = append(b.Messages, a)
	}
	bb, err := b.Marshal()
	if err != nil {
		return nil, err
	}
	ab, err := f.auth.Marshal()
	if err != nil {
		return nil, err
	}
	return (&txtypes.TxRaw{BodyBytes: bb, AuthInfoBytes: ab, Signatures: f.sigs}).Marshal()
}

func decodeForm(bz []byte) *form {
	var raw txtypes.TxRaw
	Must(raw.Unmarshal(bz))
	f := &form{sigs: raw.Signatures}
	Must(f.body.Unmarshal(raw.BodyBytes))
	Must(f.auth.Unmarshal(raw.AuthInfoBytes))
	tx, err := TxConfig().TxDecoder()(bz)
	Must(err)
	f.msgs = tx.GetMsgs()
	return f
}

func anyAddr(s string) string {
	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
		return strings.ToLower(common.HexToAddress(s).Hex())
	}
	if bz, err := sdk.AccAddressFromBech32(strings.ToLower(s)); err == nil {
		return strings.ToLower(hexutil.Encode(bz))
	}
	if common.IsHexAddress(s) {
		return strings.ToLower(common.HexToAddress(s).Hex())
	}
	return "?" + s
}

func intStr(i math.Int) string {
	if i.IsNil() {
		return "nil"
	}
	return i.String()
}

func alStr(al []evmtypes.AccessTuple) string {
	var out []string
	for _, t := range al {
		out = append(out, strings.ToLower(common.HexToAddress(t.Address).Hex())+":"+strings.ToLower(strings.Join(t.StorageKeys, ",")))
	}
	return strings.Join(out, ";")
}

func (f *form) content() content {
	var c content
	for _, m := range f.msgs {
		switch m := m.(type) {
		case *evmtypes.MsgCall:
			c.kind += "call "
			c.sender, c.to, c.value, c.input, c.al = anyAddr(m.Sender), anyAddr(m.ContractAddr), intStr(m.Value), strings.ToLower(m.Input), alStr(m.AccessList)
		case *evmtypes.MsgCreate:
			c.kind += "create "
			c.sender, c.value, c.input, c.al = anyAddr(m.Sender), intStr(m.Value), strings.ToLower(m.Code), alStr(m.AccessList)
		default:
			c.kind += sdk.MsgTypeURL(m) + " "
		}
	}
	if f.auth.Fee != nil {
		c.gas, c.fee = f.auth.Fee.GasLimit, f.auth.Fee.Amount.String()
	}
	for _, s := range f.auth.SignerInfos {
		c.seq = s.Sequence
	}
	return c
}

type mutation struct {
	name string
	f    func(f *form) bool // false: does not apply
}

func memoEdit(f *form, key string, g func(any) any) bool {
	var m map[string]any
	if json.Unmarshal([]byte(f.body.Memo), &m) != nil {
		return false
	}
	m[key] = g(m[key])
	if m[key] == nil {
		delete(m, key)
	}
	bz, _ := json.Marshal(m)
	f.body.Memo = string(bz)
	return true
}

func addDec(s any, n int64) any {
	x, ok := s.(string)
	if !ok {
		return s
	}
	v, ok := new(big.Int).SetString(x, 10)
	if !ok {
		return s
	}
	return v.Add(v, bi(n)).String()
}

func mutations(l *lab) []mutation {
	var out []mutation
	add := func(n string, f func(f *form) bool) { out = append(out, mutation{n, f}) }
	call := func(n string, g func(m *evmtypes.MsgCall) bool) {
		add("call "+n, func(f *form) bool {
			for i := range f.msgs {
				if m, ok := f.msgs[i].(*evmtypes.MsgCall); ok {
					return g(m)
				}
			}
			return false
		})
	}
	create := func(n string, g func(m *evmtypes.MsgCreate) bool) {
		add("create "+n, func(f *form) bool {
			for i := range f.msgs {
				if m, ok := f.msgs[i].(*evmtypes.MsgCreate); ok {
					return g(m)
				}
			}
			return false
		})
	}
	// messages
	for _, a := range []struct{ n, s string }{{"bob", bob.Acc().String()}, {"upper case", strings.ToUpper(alice.Acc().String())}, {"hex", alice.Addr.Hex()}, {"longer", sdk.AccAddress(append(make([]byte, 12), alice.Addr.Bytes()...)).String()}, {"empty", ""}} {
		call("sender "+a.n, func(m *evmtypes.MsgCall) bool { m.Sender = a.s; return true })
		create("sender "+a.n, func(m *evmtypes.MsgCreate) bool { m.Sender = a.s; return true })
	}
	call("target bob", func(m *evmtypes.MsgCall) bool { m.ContractAddr = bob.Addr.Hex(); return true })
	call("target counter", func(m *evmtypes.MsgCall) bool { m.ContractAddr = counter.Hex(); return true })
	call("target bech32", func(m *evmtypes.MsgCall) bool {
		m.ContractAddr = sdk.AccAddress(common.HexToAddress(m.ContractAddr).Bytes()).String()
		return true
	})
	call("target lower case", func(m *evmtypes.MsgCall) bool { m.ContractAddr = strings.ToLower(m.ContractAddr); return true })
	call("target empty", func(m *evmtypes.MsgCall) bool { m.ContractAddr = ""; return true })
	call("target longer", func(m *evmtypes.MsgCall) bool { m.ContractAddr = "0x00" + m.ContractAddr[2:]; return true })
	for n, v := range map[string]func(math.Int) math.Int{
		"value+1": func(i math.Int) math.Int { return i.AddRaw(1) }, "value-1": func(i math.Int) math.Int { return i.SubRaw(1) },
		"value nil": func(math.Int) math.Int { return math.Int{} }, "value 0": func(math.Int) math.Int { return math.ZeroInt() },
		"value negated": func(i math.Int) math.Int { return i.Neg() }} {
		call(n, func(m *evmtypes.MsgCall) bool { m.Value = v(m.Value); return true })
		create(n, func(m *evmtypes.MsgCreate) bool { m.Value = v(m.Value); return true })
	}
	for n, g := range map[string]func(string) string{
		"input appended": func(s string) string { return s + "00" }, "input cut": func(s string) string {
			if len(s) > 4 {
				return s[:len(s)-2]
			}
			return s
		}, "input empty": func(string) string { return "0x" }, "input blank": func(string) string { return "" }, "input upper case": func(s string) string { return "0x" + strings.ToUpper(s[2:]) }, "input changed": func(s string) string { return "0x01" + s[2:] }} {
		call(n, func(m *evmtypes.MsgCall) bool { m.Input = g(m.Input); return true })
		create(n, func(m *evmtypes.MsgCreate) bool { m.Code = g(m.Code); return true })
	}
	tuple := evmtypes.AccessTuple{Address: bob.Addr.Hex(), StorageKeys: []string{common.Hash{1}.Hex()}}
	for n, g := range map[string]func([]evmtypes.AccessTuple) []evmtypes.AccessTuple{
		"access list more":  func(a []evmtypes.AccessTuple) []evmtypes.AccessTuple { return append(a, tuple) },
		"access list many": func(a []evmtypes.AccessTuple) []evmtypes.AccessTuple {
			for i := 0; i < 20; i++ {
				a = append(a, tuple)
			}
			return a
		},
		"access list empty": func(a []evmtypes.AccessTuple) []evmtypes.AccessTuple { return nil },
		"access list keys": func(a []evmtypes.AccessTuple) []evmtypes.AccessTuple {
			if len(a) > 0 {
				a[0].StorageKeys = append(append([]string{}, a[0].StorageKeys...), common.Hash{7}.Hex())
			}
			return a
		}} {
		call(n, func(m *evmtypes.MsgCall) bool { m.AccessList = g(m.AccessList); return true })
		create(n, func(m *evmtypes.MsgCreate) bool { m.AccessList = g(m.AccessList); return true })
	}
	call("as creation", nil)
	out = out[:len(out)-1]
	add("as creation", func(f *form) bool {
		m, ok := f.msgs[0].(*evmtypes.MsgCall)
		if ok {
			f.msgs[0] = &evmtypes.MsgCreate{Sender: m.Sender, Code: m.Input, Value: m.Value, AccessList: m.AccessList}
		}
		return ok
	})
	add("as call", func(f *form) bool {
		m, ok := f.msgs[0].(*evmtypes.MsgCreate)
		if ok {
			f.msgs[0] = &evmtypes.MsgCall{Sender: m.Sender, ContractAddr: common.Address{}.Hex(), Input: m.Code, Value: m.Value, AccessList: m.AccessList}
		}
		return ok
	})
	add("as salted creation", func(f *form) bool {
		if m, ok := f.msgs[0].(*evmtypes.MsgCreate); ok {
			f.msgs[0] = &evmtypes.MsgCreate2{Sender: m.Sender, Code: m.Code, Value: m.Value, AccessList: m.AccessList}
			return true
		}
		return false
	})
	send := banktypes.NewMsgSend(alice.Acc(), bob.Acc(), coins(FeeDenom, bi(12345)))
	wraps := map[string]sdk.Msg{"send": send}
	ex := authz.NewMsgExec(alice.Acc(), []sdk.Msg{send})
	wraps["exec"] = &ex
	wraps["params"] = &evmtypes.MsgUpdateParams{Authority: alice.Acc().String(), Params: evmtypes.DefaultParams()}
	ga := authz.GenericAuthorization{Msg: sdk.MsgTypeURL(send)}
	gr, err := authz.NewMsgGrant(alice.Acc(), bob.Acc(), &ga, nil)
	Must(err)
	wraps["grant"] = gr
	wraps["create2"] = &evmtypes.MsgCreate2{Sender: alice.Acc().String(), Code: hexutil.Encode(initOf(counterCode)), Value: math.ZeroInt()}
	wraps["call"] = &evmtypes.MsgCall{Sender: alice.Acc().String(), ContractAddr: counter.Hex(), Input: "0x", Value: math.ZeroInt()}
	for n, m := range wraps {
		add("wrap "+n, func(f *form) bool { f.msgs = []sdk.Msg{m}; return true })
		add("append "+n, func(f *form) bool { f.msgs = append(f.msgs, m); return true })
		add("prepend "+n, func(f *form) bool { f.msgs = append([]sdk.Msg{m}, f.msgs...); return true })
	}
	add("twice", func(f *form) bool { f.msgs = append(f.msgs, f.msgs...); return true })
	add("no message", func(f *form) bool { f.msgs = nil; return true })
	// body
	for _, typ := range []int{0, 1, 2, 3, 255} {
		add(fmt.Sprint("memo type ", typ), func(f *form) bool {
			return memoEdit(f, "type", func(any) any { return typ })
		})
	}
	for _, k := range []string{"gas_fee_cap", "gas_tip_cap"} {
		for _, n := range []int64{1, -1, 1000000} {
			add(fmt.Sprint("memo ", k, " ", n), func(f *form) bool { return memoEdit(f, k, func(v any) any { return addDec(v, n) }) })
		}
		add("memo "+k+" removed", func(f *form) bool { return memoEdit(f, k, func(any) any { return nil }) })
		add("memo "+k+" bad", func(f *form) bool { return memoEdit(f, k, func(any) any { return "x" }) })
		add("memo "+k+" padded", func(f *form) bool {
			return memoEdit(f, k, func(v any) any { s, _ := v.(string); return "00" + s })
		})
	}
	add("memo empty", func(f *form) bool { f.body.Memo = ""; return true })
	add("memo unknown field", func(f *form) bool { return memoEdit(f, "x", func(any) any { return 1 }) })
	add("memo trailing", func(f *form) bool { f.body.Memo += "{}"; return true })
	add("memo duplicate", func(f *form) bool {
		f.body.Memo = strings.Replace(f.body.Memo, "{", `{"type":1,"gas_fee_cap":"5",`, 1)
		return true
	})
	add("memo overriding", func(f *form) bool {
		f.body.Memo = strings.TrimSuffix(f.body.Memo, "}") + `,"GAS_FEE_CAP":"7"}`
		return true
	})
	add("timeout", func(f *form) bool { f.body.TimeoutHeight = 1 << 40; return true })
	add("timeout passed", func(f *form) bool { f.body.TimeoutHeight = 1; return true })
	anySend, err := codectypes.NewAnyWithValue(send)
	Must(err)
	add("extension", func(f *form) bool { f.body.ExtensionOptions = []*codectypes.Any{anySend}; return true })
	add("note", func(f *form) bool { f.body.NonCriticalExtensionOptions = []*codectypes.Any{anySend}; return true })
	// fee
	for _, n := range []int64{1, -1, 1000, 1 << 62} {
		add(fmt.Sprint("gas ", n), func(f *form) bool { f.auth.Fee.GasLimit = uint64(int64(f.auth.Fee.GasLimit) + n); return true })
	}
	for _, n := range []int64{1, -1, 999_999, 1 << 50} {
		add(fmt.Sprint("fee ", n), func(f *form) bool {
			v := f.auth.Fee.Amount.AmountOf(FeeDenom).AddRaw(n)
			if !v.IsPositive() {
				return false
			}
			f.auth.Fee.Amount = sdk.NewCoins(sdk.NewCoin(FeeDenom, v))
			return true
		})
	}
	add("fee none", func(f *form) bool { f.auth.Fee.Amount = nil; return true })
	add("fee other denom", func(f *form) bool {
		f.auth.Fee.Amount = sdk.Coins{sdk.NewInt64Coin(l.denoms[6], 77)}
		return true
	})
	add("fee more denoms", func(f *form) bool {
		f.auth.Fee.Amount = f.auth.Fee.Amount.Add(sdk.NewInt64Coin("evm/zz", 1))
		return true
	})
	add("fee further coin", func(f *form) bool {
		f.auth.Fee.Amount = sdk.NewCoins(append(f.auth.Fee.Amount, sdk.NewInt64Coin(l.denoms[6], 77))...)
		return true
	})
	add("fee further coin first", func(f *form) bool {
		f.auth.Fee.Amount = append(append(sdk.Coins{}, f.auth.Fee.Amount...), sdk.NewInt64Coin("zzz", 5))
		return true
	})
	add("fee same denom twice", func(f *form) bool {
		f.auth.Fee.Amount = append(f.auth.Fee.Amount, sdk.NewInt64Coin(FeeDenom, 77))
		return true
	})
	add("payer bob", func(f *form) bool { f.auth.Fee.Payer = bob.Acc().String(); return true })
	add("payer alice", func(f *form) bool { f.auth.Fee.Payer = alice.Acc().String(); return true })
	add("granter", func(f *form) bool { f.auth.Fee.Granter = granter.Acc().String(); return true })
	add("granter without grant", func(f *form) bool { f.auth.Fee.Granter = bob.Acc().String(); return true })
	// signer
	for _, n := range []int64{1, -1, 1 << 40} {
		add(fmt.Sprint("sequence ", n), func(f *form) bool {
			f.auth.SignerInfos[0].Sequence = uint64(int64(f.auth.SignerInfos[0].Sequence) + n)
			return true
		})
	}
	for _, md := range []signing.SignMode{signing.SignMode_SIGN_MODE_DIRECT, signing.SignMode_SIGN_MODE_UNSPECIFIED, signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON, signing.SignMode_SIGN_MODE_EIP_191, 9998} {
		add(fmt.Sprint("mode ", int(md)), func(f *form) bool {
			f.auth.SignerInfos[0].ModeInfo = &txtypes.ModeInfo{Sum: &txtypes.ModeInfo_Single_{Single: &txtypes.ModeInfo_Single{Mode: md}}}
			return true
		})
	}
	add("multi mode", func(f *form) bool {
		f.auth.SignerInfos[0].ModeInfo = &txtypes.ModeInfo{Sum: &txtypes.ModeInfo_Multi_{Multi: &txtypes.ModeInfo_Multi{Bitarray: cryptotypes.NewCompactBitArray(1), ModeInfos: []*txtypes.ModeInfo{f.auth.SignerInfos[0].ModeInfo}}}}
		return true
	})
	for n, g := range map[string]func(s []byte) []byte{
		"r": func(s []byte) []byte { s[5] ^= 1; return s }, "s": func(s []byte) []byte { s[40] ^= 1; return s }, "v": func(s []byte) []byte { s[64] ^= 1; return s },
		"v+27": func(s []byte) []byte { s[64] += 27; return s }, "short": func(s []byte) []byte { return s[:64] }, "long": func(s []byte) []byte { return append(s, 0) }, "none": func(s []byte) []byte { return nil },
		"mirrored": func(s []byte) []byte {
			order, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
			x := new(big.Int).Sub(order, new(big.Int).SetBytes(s[32:64]))
			x.FillBytes(s[32:64])
			s[64] ^= 1
			return s
		}} {
		add("signature "+n, func(f *form) bool {
			if len(f.sigs) == 0 || len(f.sigs[0]) != 65 {
				return false
			}
			f.sigs[0] = g(f.sigs[0])
			return true
		})
	}
	key := func(pk cryptotypes.PubKey) *codectypes.Any {
		a, err := codectypes.NewAnyWithValue(pk)
		Must(err)
		return a
	}
	add("key bob", func(f *form) bool { f.auth.SignerInfos[0].PublicKey = key(bob.Priv.PubKey()); return true })
	add("key none", func(f *form) bool { f.auth.SignerInfos[0].PublicKey = nil; return true })
	add("key plain", func(f *form) bool {
		f.auth.SignerInfos[0].PublicKey = key(&secp256k1.PubKey{Key: alice.Priv.PubKey().Bytes()})
		return true
	})
	add("signer twice", func(f *form) bool {
		f.auth.SignerInfos = append(f.auth.SignerInfos, f.auth.SignerInfos[0])
		f.sigs = append(f.sigs, f.sigs[0])
		return true
	})
	add("signer none", func(f *form) bool { f.auth.SignerInfos = nil; f.sigs = nil; return true })
	return out
}

// TestT02 decides that nothing executes that the Ethereum key did not sign.
func TestT02(t *testing.T) {
	Run("T02", "bounded", func(c *Check) {
		mk := func(int) *lab {
			l := newLab([]int{6, 18})
			ctx := l.base
			// granter lets alice use its funds
			allow := &feegrant.BasicAllowance{}
			Must(l.w.App.FeeGrantKeeper.GrantAllowance(ctx, granter.Acc(), alice.Acc(), allow))
			acc := l.w.App.AccountKeeper.GetAccount(ctx, alice.Acc())
			Must(acc.SetSequence(3))
			l.w.App.AccountKeeper.SetAccount(ctx, acc)
			return l
		}
		type basetx struct {
			name string
			d    int
			t    *coretypes.Transaction
		}
		var bases []basetx
		to := counter
		al := coretypes.AccessList{{Address: counter, StorageKeys: []common.Hash{{2}}}}
		ini := initOf(counterCode)
		for typ := 0; typ < 3; typ++ {
			a := al
			for _, d := range []int{18, 6} {
				for _, x := range []struct {
					n     string
					to    *common.Address
					v     *big.Int
					cap   *big.Int
					data  []byte
					al    bool
					quick bool
				}{
					{"call", &to, pow10(13), pow10(9), []byte{1, 2}, true, true},
					{"plain call", &to, bi(0), bi(0), nil, false, d == 18},
					{"create", nil, bi(0), pow10(9), ini, true, d == 18},
					{"endow", nil, pow10(13), bi(0), ini, false, false},
					{"empty create", nil, bi(0), pow10(9), nil, false, d == 18},
					{"free empty create", nil, bi(0), bi(0), nil, false, d == 18},
				} {
					if !c.Thorough() && !x.quick {
						continue
					}
					xa := a
					if !x.al {
						xa = nil
					}
					bases = append(bases, basetx{fmt.Sprintf("type%d %s decimals%d", typ, x.n, d), d, alice.SignEth(ethTx(typ, 3, x.to, x.v, x.cap, bi(0), 2_000_000, x.data, xa))})
				}
			}
		}
		watch := func(l *lab, ctx sdk.Context) string {
			s := ""
			for _, k := range []*Key{alice, bob, granter} {
				s += fmt.Sprint(l.seq(ctx, k), " ", l.w.Bal(ctx, k.Addr, FeeDenom), " ", l.w.Bal(ctx, k.Addr, l.denoms[6]), " ")
			}
			return s
		}
		judge := func(l *lab, b basetx, ms []mutation, full bool) (string, bool) {
			ctx := l.at(b.d)
			tx, err := l.w.EthToSDK(ctx, b.t)
			if err != nil {
				return "cannot convert: " + err.Error(), true
			}
			f := decodeForm(l.w.Encode(tx))
			signed := f.content()
			f = f.clone()
			for _, m := range ms {
				ok := false
				if Try(func() { ok = m.f(f) }) != "" || !ok {
					return "", false
				}
			}
			bz, err := f.encode()
			if err != nil {
				return "", false
			}
			var mtx sdk.Tx
			if p := Try(func() { mtx, err = TxConfig().TxDecoder()(bz) }); p != "" || err != nil {
				c.Outcome("undecodable")
				return "", true
			}
			before, dig := watch(l, ctx), ""
			if full {
				dig = l.w.DigestStores(ctx)
			}
			d := l.w.DeliverOn(ctx, mtx)
			after := watch(l, ctx)
			same := f.content() == signed
			changed := before != after || (full && l.w.DigestStores(ctx) != dig)
			if len(ms) == 0 {
				if d.Err != "" && !strings.Contains(b.name, "empty create") {
					return "the signed transaction itself fails: " + d.Err, true
				}
				return "", true
			}
			switch {
			case d.Err == "":
				c.Outcome(fmt.Sprint("accepted, same content ", same))
			default:
				c.Outcome(fmt.Sprint("refused, same content ", same))
			}
			if !same && (d.Err == "" || changed) {
				return fmt.Sprintf("executed (%q) although the key signed %+v and the transaction says %+v", d.Err, signed, f.content()), true
			}
			return "", true
		}
		n := len(mutations(mk(0)))
		type item struct{ b, i, j int }
		names := func(ms []mutation) string {
			var s []string
			for _, m := range ms {
				s = append(s, m.name)
			}
			return strings.Join(s, " + ")
		}
		type wrk struct {
			l  *lab
			ms []mutation
		}
		Parallel(c, 8, func(i int) *wrk { l := mk(i); ms := mutations(l); sortMut(ms); return &wrk{l, ms} }, func(yield func(item) bool) {
			for b := range bases {
				if !yield(item{b, -1, -1}) {
					return
				}
				for i := 0; i < n; i++ {
					if !yield(item{b, i, -1}) {
						return
					}
				}
			}
			for b := range bases {
				if !c.Thorough() && bases[b].name != "type2 call decimals18" && bases[b].name != "type1 create decimals18" && bases[b].name != "type0 empty create decimals18" {
					continue
				}
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						if (i < j || (c.Thorough() && i != j)) && !yield(item{b, i, j}) {
							return
						}
					}
				}
			}
		}, func(w *wrk, it item) {
			var ms []mutation
			for _, k := range []int{it.i, it.j} {
				if k >= 0 {
					ms = append(ms, w.ms[k])
				}
			}
			name := bases[it.b].name + ": " + names(ms)
			d, ran := judge(w.l, bases[it.b], ms, it.j < 0)
			if !ran {
				return
			}
			c.Exec(name)
			c.Trans(1)
			c.Validated(1)
			c.State(name)
			if it.j < 0 {
				c.Sample(name)
			}
			if d != "" {
				c.Violate("unsigned", name+" => "+d, name, func() string { s, _ := judge(w.l, bases[it.b], ms, it.j < 0); return s })
			}
		})
		c.Note("mutations", n)
		c.Note("signed transactions", len(bases))
		c.Assume("the fee payer named by the chain (granter), the memo's spelling and the timeout are not part of the signed content")
		_ = bytes.Equal
	})
}

func sortMut(ms []mutation) {
	for i := 1; i < len(ms); i++ {
		for j := i; j > 0 && ms[j].name < ms[j-1].name; j-- {
			ms[j], ms[j-1] = ms[j-1], ms[j]
		}
	}
}
