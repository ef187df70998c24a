package tx

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	sdk "github.com/cosmos/cosmos-sdk/types"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/holiman/uint256"

	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

type t01item struct {
	typ, to, nonce, gas, cap, tip, value, data, al, d int
}

type t01alpha struct {
	tos    []*common.Address
	nonces []uint64
	gases  []uint64
	caps   []*big.Int
	tips   []*big.Int
	values []*big.Int
	datas  [][]byte
	als    []coretypes.AccessList
	ds     []int
}

func (a *t01alpha) build(it t01item) coretypes.TxData {
	return ethTx(it.typ, a.nonces[it.nonce], a.tos[it.to], a.values[it.value], a.caps[it.cap], a.tips[it.tip], a.gases[it.gas], a.datas[it.data], a.als[it.al])
}

// TestT01 decides that Ethereum and chain transaction forms convert without loss.
func TestT01(t *testing.T) {
	Run("T01", "bounded", func(c *Check) {
		max256 := new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1))
		zero := common.Address{}
		pre := common.HexToAddress("0xf1")
		big4k := bytes.Repeat([]byte{0xab, 0}, 2048)
		a := &t01alpha{
			tos:    []*common.Address{nil, &counter, &zero, &pre},
			nonces: Pick(c, []uint64{0, 1, 1<<64 - 1}, []uint64{0, 1, 255, 1 << 32, 1<<64 - 1}),
			gases:  Pick(c, []uint64{0, 21000, 1<<64 - 1}, []uint64{0, 1, 21000, 1 << 63, 1<<64 - 1}),
			caps:   Pick(c, []*big.Int{bi(0), bi(1), pow10(9), max256}, []*big.Int{bi(0), bi(1), pow10(9), pow10(20), new(big.Int).Lsh(bi(1), 192), max256}),
			tips:   Pick(c, []*big.Int{bi(0), bi(7)}, []*big.Int{bi(0), bi(7), max256}),
			values: Pick(c, []*big.Int{bi(0), pow10(12), new(big.Int).Add(pow10(18), bi(1)), max256}, []*big.Int{bi(0), bi(1), pow10(12), pow10(18), new(big.Int).Add(pow10(18), bi(1)), max256}),
			datas:  [][]byte{nil, {0}, {1, 2, 3, 4, 0}, big4k},
			als: []coretypes.AccessList{nil, {}, {{Address: counter}},
				{{Address: counter, StorageKeys: []common.Hash{{}, {1}, {}}}, {Address: counter, StorageKeys: []common.Hash{{31: 9}}}, {Address: zero}}},
			ds: Pick(c, []int{0, 6, 18, 24}, []int{0, 6, 9, 18, 24, 30}),
		}
		long := coretypes.AccessList{}
		for i := 0; i < 40; i++ {
			x := coretypes.AccessTuple{Address: common.Address{19: byte(i % 7)}}
			for j := 0; j < i; j++ {
				x.StorageKeys = append(x.StorageKeys, common.Hash{0: byte(j), 31: byte(i)})
			}
			long = append(long, x)
		}
		a.als = append(a.als, long)
		judge := func(l *lab, it t01item) string {
			ctx := l.at(a.ds[it.d])
			dec := a.ds[it.d]
			et := alice.SignEth(a.build(it))
			amount := units(et.Value(), dec)
			fee := units(new(big.Int).Mul(a.caps[it.cap], new(big.Int).SetUint64(et.Gas())), dec)
			fits := func(r *big.Rat) bool { return floorRat(r).BitLen() < 256 }
			ok := amount.IsInt() && fits(amount) && amount.Num().BitLen() <= 256 && fits(fee)
			tx, err := l.w.EthToSDK(ctx, et)
			if err != nil {
				if ok {
					return "a representable transaction is refused: " + err.Error()
				}
				c.Outcome("refused")
				return ""
			}
			if !amount.IsInt() {
				return "a value which is not a whole number of units is accepted"
			}
			c.Outcome("converted")
			// the chain form says what was signed
			msgs := tx.GetMsgs()
			if len(msgs) != 1 {
				return fmt.Sprintf("%d messages", len(msgs))
			}
			f := tx.(sdk.FeeTx)
			if f.GetGas() != et.Gas() {
				return fmt.Sprintf("gas %d, signed %d", f.GetGas(), et.Gas())
			}
			switch m := msgs[0].(type) {
			case *evmtypes.MsgCall:
				if et.To() == nil || common.HexToAddress(m.ContractAddr) != *et.To() || m.Sender != alice.Acc().String() || !bytes.Equal(common.FromHex(m.Input), et.Data()) || new(big.Rat).SetInt(m.Value.BigInt()).Cmp(amount) != 0 {
					return "the call message differs from the signed transaction: " + m.String()
				}
			case *evmtypes.MsgCreate:
				if et.To() != nil || m.Sender != alice.Acc().String() || !bytes.Equal(common.FromHex(m.Code), et.Data()) || new(big.Rat).SetInt(m.Value.BigInt()).Cmp(amount) != 0 {
					return "the creation message differs from the signed transaction: " + m.String()
				}
			default:
				return fmt.Sprintf("message %T", m)
			}
			// over the wire and back
			bz, err := TxConfig().TxEncoder()(tx)
			if err != nil {
				return "encode: " + err.Error()
			}
			tx2, err := TxConfig().TxDecoder()(bz)
			if err != nil {
				return "decode: " + err.Error()
			}
			u := evmkeeper.NewTxUtils(l.w.K)
			for _, x := range []sdk.Tx{tx, tx2} {
				back, sender, err := u.ConvertCosmosTxToEthereumTx(ctx, x)
				if err != nil || back == nil || sender == nil {
					return fmt.Sprint("does not convert back: ", err)
				}
				if *sender != alice.Addr {
					return "sender " + sender.Hex()
				}
				b1, err1 := et.MarshalBinary()
				b2, err2 := back.MarshalBinary()
				if err1 != nil || err2 != nil || !bytes.Equal(b1, b2) || et.Hash() != back.Hash() || et.Type() != back.Type() {
					return fmt.Sprintf("comes back as another transaction: %x, signed %x", b2, b1)
				}
				rec, err := coretypes.Sender(coretypes.LatestSignerForChainID(EthChainID()), back)
				if err != nil || rec != alice.Addr {
					return fmt.Sprint("recovered ", rec, " ", err)
				}
				if is, err := u.IsEthereumTx(ctx, x); err != nil || !is {
					return fmt.Sprint("not taken for an Ethereum transaction: ", err)
				}
				sigs, err := x.(authsigning.SigVerifiableTx).GetSignaturesV2()
				if err != nil || len(sigs) != 1 || sigs[0].Sequence != et.Nonce() || !bytes.Equal(sigs[0].PubKey.Address(), alice.Addr.Bytes()) {
					return fmt.Sprint("signature information: ", sigs, err)
				}
			}
			return ""
		}
		labs := make([]*lab, 8)
		Parallel(c, 8, func(i int) *lab {
			if i < 0 || labs[i] == nil {
				l := newLab(a.ds)
				if i >= 0 {
					labs[i] = l
				}
				return l
			}
			return labs[i]
		}, func(yield func(t01item) bool) {
			Product([]int{3, len(a.tos), len(a.nonces), len(a.gases), len(a.caps), len(a.tips), len(a.values), len(a.datas), len(a.als), len(a.ds)}, func(x []int) bool {
				it := t01item{x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9]}
				if (it.typ == 0 && it.al != 0) || (it.typ != 2 && it.tip != 0) {
					return true // not part of the type
				}
				if !c.Thorough() && it.data == 3 && it.value > 1 {
					return true
				}
				return yield(it)
			})
		}, func(l *lab, it t01item) {
			name := fmt.Sprintf("%+v", it)
			c.Exec(name)
			c.Trans(1)
			c.Validated(1)
			c.State(name)
			if d := judge(l, it); d != "" {
				c.Violate("round-trip", fmt.Sprintf("%+v (indices) => %s", it, d), it, func() string { return judge(l, it) })
			}
		})

		// what the chain form cannot carry is refused, at conversion or at verification
		l := newLab([]int{18})
		to := counter
		type bad struct {
			name string
			tx   *coretypes.Transaction
		}
		var bads []bad
		sign := func(s coretypes.Signer, d coretypes.TxData) *coretypes.Transaction {
			t, err := coretypes.SignTx(coretypes.NewTx(d), s, alice.ECDSA)
			Must(err)
			return t
		}
		own := EthChainID()
		for _, to := range []*common.Address{nil, &to} {
			for _, v := range []int64{0, 5} {
				for _, data := range [][]byte{nil, initOf(counterCode)} {
					n := fmt.Sprintf("to=%v value=%d data=%d", to != nil, v, len(data))
					leg := &coretypes.LegacyTx{GasPrice: bi(1), Gas: 3_000_000, To: to, Value: bi(v), Data: data}
					bads = append(bads, bad{"unprotected " + n, sign(coretypes.HomesteadSigner{}, leg)}, bad{"frontier " + n, sign(coretypes.FrontierSigner{}, leg)})
					for k, id := range []*big.Int{bi(0), bi(1), new(big.Int).Add(own, bi(1)), new(big.Int).Sub(own, bi(1)), new(big.Int).Add(own, bi(128)), new(big.Int).Add(own, bi(256)), new(big.Int).Lsh(own, 1)} {
						for typ := 0; typ < 3; typ++ {
							d := ethTx(typ, 0, to, bi(v), bi(1), bi(0), 3_000_000, data, nil)
							switch x := d.(type) {
							case *coretypes.AccessListTx:
								x.ChainID = id
							case *coretypes.DynamicFeeTx:
								x.ChainID = id
							}
							if typ == 0 && id.Sign() == 0 {
								continue
							}
							bads = append(bads, bad{fmt.Sprintf("chain id %d type %d %s", k, typ, n), sign(coretypes.LatestSignerForChainID(id), d)})
						}
					}
					if to != nil {
						bads = append(bads, bad{"blob " + n, sign(coretypes.LatestSignerForChainID(own), &coretypes.BlobTx{ChainID: uint256.MustFromBig(own), Gas: 3_000_000, GasFeeCap: uint256.NewInt(1), GasTipCap: uint256.NewInt(0), To: *to, Value: uint256.NewInt(uint64(v)), Data: data, BlobFeeCap: uint256.NewInt(1), BlobHashes: []common.Hash{{1}}})})
					}
				}
			}
		}
		// broken signature values
		good := alice.SignEth(ethTx(2, 0, &to, bi(0), bi(1), bi(0), 3_000_000, nil, nil))
		v, r, s := good.RawSignatureValues()
		order, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
		for k, x := range [][3]*big.Int{{new(big.Int).Xor(v, bi(1)), r, new(big.Int).Sub(order, s)}, {v, bi(0), s}, {v, r, bi(0)}, {bi(2), r, s}, {bi(27), r, s}, {new(big.Int).Xor(v, bi(1)), r, s}, {v, s, r}, {v, order, s}, {new(big.Int).Add(v, bi(256)), r, s}} {
			bads = append(bads, bad{fmt.Sprint("signature values ", k), coretypes.NewTx(&coretypes.DynamicFeeTx{ChainID: own, GasFeeCap: bi(1), GasTipCap: bi(0), Gas: 3_000_000, To: &to, Value: bi(0), V: x[0], R: x[1], S: x[2]})})
		}
		if tx, err := l.w.EthToSDK(l.base, good); err != nil {
			c.Violate("control", err.Error(), nil, nil)
		} else if d := l.w.DeliverOn(Branch(l.base), tx); d.Err != "" {
			c.Violate("control", "a correctly signed transaction fails: "+d.Err, nil, nil)
		}
		for _, b := range bads {
			c.Exec(b.name)
			c.Trans(1)
			j := func() string {
				ctx := Branch(l.base)
				tx, err := l.w.EthToSDK(ctx, b.tx)
				if err != nil {
					return ""
				}
				before := l.w.DigestStores(ctx)
				d := l.w.DeliverOn(ctx, tx)
				if l.w.DigestStores(ctx) != before {
					return "it was executed: " + d.Err
				}
				return ""
			}
			if d := j(); d != "" {
				c.Violate("unrepresentable", b.name+" => "+d, b.name, j)
			}
		}
		c.Note("unrepresentable transactions", len(bads))
		c.Sample(fmt.Sprintf("%+v", t01item{typ: 2, to: 1}))
		c.Assume("amounts beyond 256 bits may be refused by a recovered panic")
	})
}
