package core

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/holiman/uint256"

	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// Exec runs one execution on the real keeper, keeping its effects only on success,
// as the message layer does.
func (w *World) Exec(ctx sdk.Context, caller common.Address, to *common.Address, input []byte, value uint64, gas uint64, salt *uint64) (res Result) {
	cc, commit := ctx.CacheContext()
	cc = Fresh(cc, gas)
	var logs evmtypes.Logs
	var err error
	v := uint256.NewInt(value)
	if p := Try(func() {
		switch {
		case to != nil:
			res.Ret, logs, err = w.K.EVMCall(cc, caller, *to, input, v, nil)
		case salt == nil:
			res.Ret, res.Created, logs, err = w.K.EVMCreate(cc, caller, input, v, nil)
		default:
			res.Ret, res.Created, logs, err = w.K.EVMCreate2(cc, caller, input, v, *salt, nil)
		}
	}); p != "" {
		res.Err = p
		res.Gas = cc.GasMeter().GasConsumedToLimit()
		return res
	}
	res.Gas = cc.GasMeter().GasConsumedToLimit()
	if err != nil {
		res.Err = err.Error()
		return res
	}
	res.OK = true
	res.Logs = ConvLogs(logs)
	commit()
	return res
}

// ConvLogs converts the chain's logs.
func ConvLogs(logs evmtypes.Logs) []Log {
	var out []Log
	for _, l := range logs {
		x := Log{Addr: common.HexToAddress(l.Address)}
		for _, t := range l.Topics {
			x.Topics = append(x.Topics, common.HexToHash(t))
		}
		x.Data = common.FromHex(l.Data)
		out = append(out, x)
	}
	return out
}

// DropLogs removes the logs of one emitter.
func DropLogs(in []Log, a common.Address) []Log {
	var out []Log
	for _, l := range in {
		if l.Addr != a {
			out = append(out, l)
		}
	}
	return out
}

// LogsString writes logs out.
func LogsString(in []Log) string {
	var b strings.Builder
	for _, l := range in {
		fmt.Fprintf(&b, "%x:", l.Addr[:3])
		for _, t := range l.Topics {
			fmt.Fprintf(&b, "%s,", t.Big())
		}
		fmt.Fprintf(&b, "[%x] ", bytes.TrimLeft(l.Data, "\x00"))
	}
	return b.String()
}

// LogsEqual compares logs exactly.
func LogsEqual(a, b []Log) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Addr != b[i].Addr || !bytes.Equal(a[i].Data, b[i].Data) || len(a[i].Topics) != len(b[i].Topics) {
			return false
		}
		for j := range a[i].Topics {
			if a[i].Topics[j] != b[i].Topics[j] {
				return false
			}
		}
	}
	return true
}

// Acct is the observable state of one EVM account.
type Acct struct {
	Nonce   uint64
	Balance string
	Code    string
	Store   map[uint64]string
}

// String canonicalises.
func (a Acct) String() string {
	ks := make([]int, 0, len(a.Store))
	for k := range a.Store {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	var b strings.Builder
	fmt.Fprintf(&b, "nonce=%d bal=%s code=%s", a.Nonce, a.Balance, a.Code)
	for _, k := range ks {
		fmt.Fprintf(&b, " s%d=%s", k, a.Store[uint64(k)])
	}
	return b.String()
}

func short(code []byte) string {
	if len(code) == 0 {
		return "-"
	}
	return fmt.Sprintf("%d:%x", len(code), Keccak(code).Bytes()[:4])
}

// ReadAcct observes an account through the chain's query service.
func (w *World) ReadAcct(ctx sdk.Context, a common.Address, slots int) Acct {
	q := evmkeeper.NewQueryServer(w.K)
	r := Acct{Store: map[uint64]string{}}
	if acc := w.App.AccountKeeper.GetAccount(ctx, Acc(a)); acc != nil {
		r.Nonce = acc.GetSequence()
	}
	c, err := q.Code(ctx, &evmtypes.QueryCodeRequest{ContractAddr: a.Hex()})
	Must(err)
	r.Code = short(common.FromHex(c.Code))
	r.Balance = w.Bal(ctx, a, FeeDenom).String()
	for s := 0; s < slots; s++ {
		x, err := q.State(ctx, &evmtypes.QueryStateRequest{ContractAddr: a.Hex(), Key: SlotKey(s).Hex()})
		Must(err)
		if h := common.HexToHash(x.Value); h != (common.Hash{}) {
			r.Store[uint64(s)] = h.Big().String()
		}
	}
	return r
}

// ReadAcct observes an account of the reference.
func (r *Ref) ReadAcct(a common.Address, slots int) Acct {
	x := Acct{Store: map[uint64]string{}, Nonce: r.DB.GetNonce(a), Balance: r.DB.GetBalance(a).String(), Code: short(r.DB.GetCode(a))}
	for s := 0; s < slots; s++ {
		if h := r.DB.GetState(a, SlotKey(s)); h != (common.Hash{}) {
			x.Store[uint64(s)] = h.Big().String()
		}
	}
	return x
}

// RefBlock builds the reference block context matching ctx.
func RefBlock(ctx sdk.Context) vm.BlockContext {
	h := common.BytesToHash(ctx.HeaderHash())
	return vm.BlockContext{BaseFee: big.NewInt(0), GasLimit: 30_000_000, BlockNumber: big.NewInt(ctx.BlockHeight()), Time: uint64(ctx.BlockTime().Unix()),
		Random: &h, Difficulty: big.NewInt(0), BlobBaseFee: big.NewInt(0), GetHash: func(uint64) common.Hash { return common.Hash{} }}
}

var _ = coretypes.Log{}
