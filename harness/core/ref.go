package core

import (
	"context"
	"math/big"
	"sort"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/tracing"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/trie/utils"
	"github.com/ethereum/go-ethereum/triedb"
	"github.com/holiman/uint256"
)

// Ref is the reference: go-ethereum's own state database, with the balance kept natively.
type Ref struct {
	DB      *state.StateDB
	Cfg     *params.ChainConfig
	Block   vm.BlockContext
	Created []common.Address
	Extra   []common.Address // warm precompile addresses beyond the standard ones
	n       int
}

// RefConfig is the rule set the chain promises: every fork up to Prague, nothing beyond.
func RefConfig(chainID *big.Int) *params.ChainConfig {
	z := func() *big.Int { return new(big.Int) }
	t := func() *uint64 { return new(uint64) }
	return &params.ChainConfig{ChainID: chainID, HomesteadBlock: z(), DAOForkBlock: z(), DAOForkSupport: true, EIP150Block: z(), EIP155Block: z(), EIP158Block: z(),
		ByzantiumBlock: z(), ConstantinopleBlock: z(), PetersburgBlock: z(), IstanbulBlock: z(), MuirGlacierBlock: z(), BerlinBlock: z(), LondonBlock: z(), ArrowGlacierBlock: z(),
		GrayGlacierBlock: z(), MergeNetsplitBlock: z(), ShanghaiTime: t(), CancunTime: t(), PragueTime: t()}
}

// NewRef makes an empty reference state.
func NewRef(cfg *params.ChainConfig, blk vm.BlockContext) *Ref {
	db, err := state.New(coretypes.EmptyRootHash, state.NewDatabaseWithConfig(rawdb.NewMemoryDatabase(), triedb.HashDefaults), nil)
	if err != nil {
		panic(HarnessFault(err.Error()))
	}
	return &Ref{DB: db, Cfg: cfg, Block: blk}
}

// Copy duplicates the reference.
func (r *Ref) Copy() *Ref {
	return &Ref{DB: r.DB.Copy(), Cfg: r.Cfg, Block: r.Block, Created: append([]common.Address{}, r.Created...), Extra: r.Extra, n: r.n}
}

// Result of one execution.
type Result struct {
	OK      bool
	Err     string
	Ret     []byte
	Gas     uint64
	Logs    []Log
	Created common.Address
	Touched bool // value was moved
}

// Log without block fields.
type Log struct {
	Addr   common.Address
	Topics []common.Hash
	Data   []byte
}

func (r *Ref) evm(origin common.Address, moved *bool) *vm.EVM {
	blk := r.Block
	blk.CanTransfer = func(db vm.StateDB, a common.Address, v *uint256.Int) bool { return db.GetBalance(a).Cmp(v) >= 0 }
	blk.Transfer = func(db vm.StateDB, a, b common.Address, v *uint256.Int) {
		if v != nil && !v.IsZero() {
			*moved = true
			db.SubBalance(a, v, tracing.BalanceChangeTransfer)
			db.AddBalance(b, v, tracing.BalanceChangeTransfer)
		}
	}
	tr := &tracing.Hooks{OnEnter: func(depth int, typ byte, from, to common.Address, _ []byte, _ uint64, _ *big.Int) {
		if vm.OpCode(typ) == vm.CREATE || vm.OpCode(typ) == vm.CREATE2 {
			r.Created = append(r.Created, to)
		}
		if vm.OpCode(typ) == vm.SELFDESTRUCT {
			*moved = true
		}
	}}
	e := vm.NewEVM(blk, vm.TxContext{Origin: origin, GasPrice: big.NewInt(0), BlobFeeCap: big.NewInt(0), BlobHashes: []common.Hash{}, AccessEvents: state.NewAccessEvents(utils.NewPointCache(4096))}, r.DB, r.Cfg, vm.Config{Tracer: tr})
	return e
}

// Exec runs a call (to != nil) or a creation as one transaction body.
func (r *Ref) Exec(caller common.Address, to *common.Address, input []byte, value uint64, gas uint64, salt *uint64) Result {
	snap := r.DB.Snapshot()
	r.n++
	r.DB.SetTxContext(common.BigToHash(big.NewInt(int64(r.n))), r.n)
	var moved bool
	e := r.evm(caller, &moved)
	rules := r.Cfg.Rules(r.Block.BlockNumber, r.Block.Random != nil, r.Block.Time)
	r.DB.Prepare(rules, caller, common.Address{}, to, append(vm.ActivePrecompiles(rules), r.Extra...), nil)
	var res Result
	var left uint64
	var err error
	v := uint256.NewInt(value)
	switch {
	case to != nil:
		res.Ret, left, err = e.Call(vm.AccountRef(caller), *to, input, gas, v)
	case salt == nil:
		res.Ret, res.Created, left, err = e.Create(vm.AccountRef(caller), input, gas, v)
	default:
		res.Ret, res.Created, left, err = e.Create2(vm.AccountRef(caller), input, gas, v, uint256.NewInt(*salt))
	}
	used := gas - left
	ref := r.DB.GetRefund()
	if ref > used/params.RefundQuotientEIP3529 {
		ref = used / params.RefundQuotientEIP3529
	}
	res.Gas = used - ref
	res.Touched = moved
	if err != nil {
		res.Err = err.Error()
		r.DB.RevertToSnapshot(snap)
	} else {
		res.OK = true
		for _, l := range r.DB.GetLogs(common.BigToHash(big.NewInt(int64(r.n))), 0, common.Hash{}) {
			res.Logs = append(res.Logs, Log{l.Address, l.Topics, l.Data})
		}
	}
	r.DB.Finalise(true)
	return res
}

// AllCreated lists distinct created addresses.
func (r *Ref) AllCreated() []common.Address {
	m := map[common.Address]bool{}
	var out []common.Address
	for _, a := range r.Created {
		if !m[a] {
			m[a] = true
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Cmp(out[j]) < 0 })
	return out
}

var _ = context.Background
