package core

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	tmtypes "github.com/cometbft/cometbft/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	servertypes "github.com/cosmos/cosmos-sdk/server/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"
	minievmapp "github.com/initia-labs/minievm/app"
	bankkeeper "github.com/initia-labs/minievm/x/bank/keeper"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// ChainID used by every world.
const ChainID = "verif-1"

// FeeDenom is the fee token denomination in every world.
var FeeDenom = sdk.DefaultBondDenom

// GenesisTime is the time of the first block.
var GenesisTime = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// WorldCfg configures a world.
type WorldCfg struct {
	DB, IndexDB dbm.DB
	Opts        servertypes.AppOptions
	GenAccs     []authtypes.GenesisAccount
	Balances    []banktypes.Balance
	NoCommit    bool
	EVM         *evmtypes.GenesisState
	BaseOpts    []func(*baseapp.BaseApp)
	Empty       bool // no genesis
	MutGenesis  func(app *minievmapp.MinitiaApp, gs minievmapp.GenesisState)
}

// World is one instance of the real application.
type World struct {
	App   *minievmapp.MinitiaApp
	K     *evmkeeper.Keeper
	Bank  *bankkeeper.BaseKeeper
	Base  sdk.Context
	Admin sdk.AccAddress
	IdxDB dbm.DB
	DB    dbm.DB
}

// AppOpts is a map-backed option set.
type AppOpts map[string]any

// Get implements AppOptions.
func (o AppOpts) Get(k string) any { return o[k] }

// encoding is built once: building it builds a whole application.
var encoding = sync.OnceValue(minievmapp.MakeEncodingConfig)

func evmCfg(cfg WorldCfg) evmconfig.EVMConfig {
	e := evmconfig.DefaultEVMConfig()
	e.IndexerCacheSize = 1
	return e
}

// NewApp builds the application and runs genesis deterministically.
func NewApp(cfg WorldCfg) *World {
	if cfg.DB == nil {
		cfg.DB = dbm.NewMemDB()
	}
	if cfg.IndexDB == nil {
		cfg.IndexDB = dbm.NewMemDB()
	}
	if cfg.Opts == nil {
		cfg.Opts = minievmapp.EmptyAppOptions{}
	}
	app := minievmapp.NewMinitiaApp(log.NewNopLogger(), cfg.DB, cfg.IndexDB, dbm.NewMemDB(), nil, true, evmCfg(cfg), cfg.Opts, append([]func(*baseapp.BaseApp){baseapp.SetChainID(ChainID)}, cfg.BaseOpts...)...)
	w := &World{App: app, K: app.EVMKeeper, Bank: app.BankKeeper, IdxDB: cfg.IndexDB, DB: cfg.DB}
	if cfg.Empty {
		return w
	}
	enc := encoding()
	gs := minievmapp.NewDefaultGenesisState(enc.Codec, app.BasicModuleManager, FeeDenom)

	genAccs := cfg.GenAccs
	if genAccs == nil {
		genAccs = []authtypes.GenesisAccount{}
	}
	gs[authtypes.ModuleName] = app.AppCodec().MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), genAccs))

	pk := ed25519.GenPrivKeyFromSecret([]byte("verif-validator")).PubKey()
	tmpk, err := cryptocodec.ToTmPubKeyInterface(pk) //nolint:staticcheck
	Must(err)
	val := tmtypes.NewValidator(tmpk, 1)
	pkAny, err := codectypes.NewAnyWithValue(pk)
	Must(err)
	var op opchildtypes.GenesisState
	app.AppCodec().MustUnmarshalJSON(gs[opchildtypes.ModuleName], &op)
	w.Admin = sdk.AccAddress(val.Address.Bytes())
	op.Params.Admin = w.Admin.String()
	op.Params.BridgeExecutors = []string{w.Admin.String()}
	op = *opchildtypes.NewGenesisState(op.Params, []opchildtypes.Validator{{Moniker: "v", OperatorAddress: sdk.ValAddress(val.Address).String(), ConsensusPubkey: pkAny, ConsPower: 1}}, nil)
	gs[opchildtypes.ModuleName] = app.AppCodec().MustMarshalJSON(&op)
	gs[banktypes.ModuleName] = app.AppCodec().MustMarshalJSON(banktypes.NewGenesisState(banktypes.DefaultGenesisState().Params, cfg.Balances, sdk.NewCoins(), []banktypes.Metadata{}, []banktypes.SendEnabled{}))
	if cfg.EVM != nil {
		gs[evmtypes.ModuleName] = app.AppCodec().MustMarshalJSON(cfg.EVM)
	}
	if cfg.MutGenesis != nil {
		cfg.MutGenesis(app, gs)
	}
	bz, err := json.Marshal(gs)
	Must(err)
	_, err = app.InitChain(&abci.RequestInitChain{ChainId: ChainID, Time: GenesisTime, ConsensusParams: &tmproto.ConsensusParams{
		Block:     &tmproto.BlockParams{MaxBytes: 8000000, MaxGas: 1234000000},
		Evidence:  &tmproto.EvidenceParams{MaxAgeNumBlocks: 302400, MaxAgeDuration: 504 * time.Hour, MaxBytes: 10000},
		Validator: &tmproto.ValidatorParams{PubKeyTypes: []string{tmtypes.ABCIPubKeyTypeEd25519}},
	}, AppStateBytes: bz, InitialHeight: 1})
	Must(err)
	if !cfg.NoCommit {
		_, err = app.FinalizeBlock(&abci.RequestFinalizeBlock{Height: 1, Time: GenesisTime, Hash: BlockHash(1)})
		Must(err)
		_, err = app.Commit()
		Must(err)
	}
	return w
}

// BlockHash is the deterministic hash given to block h.
func BlockHash(h int64) []byte {
	x := sha256.Sum256([]byte(fmt.Sprintf("block-%d", h)))
	return x[:]
}

// NewWorld makes an application with an uncached base context at height 2.
func NewWorld(cfg WorldCfg) *World {
	w := NewApp(cfg)
	w.Base = w.App.BaseApp.NewUncachedContext(false, tmproto.Header{ChainID: ChainID, Height: 2, Time: GenesisTime.Add(time.Second)}).
		WithHeaderHash(BlockHash(2)).WithChainID(ChainID).WithBlockHeight(2).WithBlockTime(GenesisTime.Add(time.Second))
	return w
}

// Branch makes a throw-away branch of ctx with its own gas meter and event manager.
func Branch(ctx sdk.Context) sdk.Context {
	c, _ := ctx.CacheContext()
	return c.WithGasMeter(storetypes.NewGasMeter(30_000_000)).WithEventManager(sdk.NewEventManager())
}

// Fresh returns ctx with a new gas meter and event manager (same store).
func Fresh(ctx sdk.Context, gas uint64) sdk.Context {
	return ctx.WithGasMeter(storetypes.NewGasMeter(gas)).WithEventManager(sdk.NewEventManager())
}

// Must panics as a harness fault... setup failures of the code under test are reported by Run.
func Must(err error) {
	if err != nil {
		panic(err)
	}
}

// Addr makes a deterministic 20-byte address.
func Addr(name string) common.Address {
	h := sha256.Sum256([]byte("addr/" + name))
	h[0] |= 0x10 // never a precompile
	return common.BytesToAddress(h[:20])
}

// Acc converts.
func Acc(a common.Address) sdk.AccAddress { return sdk.AccAddress(a.Bytes()) }

// Fund mints coins straight to an account.
func (w *World) Fund(ctx sdk.Context, a common.Address, denom string, amt int64) {
	Must(w.K.ERC20Keeper().MintCoins(ctx, Acc(a), sdk.NewCoins(sdk.NewInt64Coin(denom, amt))))
}

// FundAcc makes an account with funds.
func (w *World) FundAcc(ctx sdk.Context, a common.Address, denom string, amt int64) {
	w.EnsureAcc(ctx, a)
	w.Fund(ctx, a, denom, amt)
}

// EnsureAcc creates a base account when there is none.
func (w *World) EnsureAcc(ctx sdk.Context, a common.Address) {
	if !w.App.AccountKeeper.HasAccount(ctx, Acc(a)) {
		w.App.AccountKeeper.SetAccount(ctx, w.App.AccountKeeper.NewAccountWithAddress(ctx, Acc(a)))
	}
}

// Bal is the bank balance.
func (w *World) Bal(ctx sdk.Context, a common.Address, denom string) *big.Int {
	b, err := w.K.ERC20Keeper().GetBalance(ctx, Acc(a), denom)
	Must(err)
	return b.BigInt()
}

// SetCode installs runtime code for a contract account through the real state database.
func (w *World) SetCode(ctx sdk.Context, a common.Address, code []byte) {
	db, err := w.K.NewStateDB(ctx, nil, evmtypes.Fee{})
	Must(err)
	if !w.App.AccountKeeper.HasAccount(ctx, Acc(a)) {
		db.CreateContract(a)
		db.SetNonce(a, 1)
	}
	db.SetCode(a, code)
	Must(db.Commit())
}

// DigestStores hashes all persistent stores of ctx whose name is in names (all when none given).
func (w *World) DigestStores(ctx sdk.Context, skip ...string) string {
	h := sha256.New()
	sk := map[string]bool{}
	for _, s := range skip {
		sk[s] = true
	}
	keys := w.App.GetKVStoreKey()
	names := make([]string, 0, len(keys))
	for n := range keys {
		if !sk[n] {
			names = append(names, n)
		}
	}
	sortStrings(names)
	for _, n := range names {
		h.Write([]byte(n))
		it := ctx.MultiStore().GetKVStore(keys[n]).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			var l [8]byte
			k, v := it.Key(), it.Value()
			l[0], l[1], l[2], l[3], l[4] = byte(len(k)), byte(len(k)>>8), byte(len(v)), byte(len(v)>>8), byte(len(v)>>16)
			h.Write(l[:])
			h.Write(k)
			h.Write(v)
		}
		it.Close()
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

// DumpStore returns the content of a store.
func (w *World) DumpStore(ctx sdk.Context, name string) map[string]string {
	m := map[string]string{}
	it := ctx.MultiStore().GetKVStore(w.App.GetKVStoreKey()[name]).Iterator(nil, nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		m[string(it.Key())] = string(it.Value())
	}
	return m
}

// DumpAll returns store/key -> value of every persistent store.
func (w *World) DumpAll(ctx sdk.Context) map[string]string {
	m := map[string]string{}
	for n := range w.App.GetKVStoreKey() {
		for k, v := range w.DumpStore(ctx, n) {
			m[n+"/"+k] = v
		}
	}
	return m
}

// DiffMaps describes the differences of two dumps.
func DiffMaps(a, b map[string]string) string {
	var d []string
	for k, v := range a {
		if x, ok := b[k]; !ok {
			d = append(d, fmt.Sprintf("-%q=%x", k, v))
		} else if x != v {
			d = append(d, fmt.Sprintf("~%q %x->%x", k, v, x))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			d = append(d, fmt.Sprintf("+%q=%x", k, v))
		}
	}
	sortStrings(d)
	if len(d) > 12 {
		d = append(d[:12], fmt.Sprintf("... %d more", len(d)-12))
	}
	return strings.Join(d, "; ")
}

// Coins parses a coin list.
func Coins(s string) sdk.Coins {
	c, err := sdk.ParseCoinsNormalized(s)
	Must(err)
	return c
}

// Int is short for math.NewInt.
func Int(i int64) math.Int { return math.NewInt(i) }
