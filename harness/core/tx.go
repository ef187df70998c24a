package core

import (
	"context"
	"crypto/ecdsa"
	"crypto/sha256"
	"fmt"
	"math/big"
	"reflect"
	"time"
	"unsafe"

	"cosmossdk.io/core/header"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	"github.com/cosmos/cosmos-sdk/client"
	clienttx "github.com/cosmos/cosmos-sdk/client/tx"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/initia-labs/initia/crypto/ethsecp256k1"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// Key is a deterministic Ethereum key.
type Key struct {
	Name  string
	ECDSA *ecdsa.PrivateKey
	Priv  *ethsecp256k1.PrivKey
	Addr  common.Address
	Plain cryptotypes.PrivKey // signs instead of the Ethereum key when set
}

// NewPlainKey derives an ordinary chain key from a name.
func NewPlainKey(name string) *Key {
	k := &secp256k1.PrivKey{Key: NewKey(name).Priv.Key}
	return &Key{Name: name, Addr: common.BytesToAddress(k.PubKey().Address()), Plain: k}
}

func (k *Key) priv() cryptotypes.PrivKey {
	if k.Plain != nil {
		return k.Plain
	}
	return k.Priv
}

// NewKey derives a key from a name.
func NewKey(name string) *Key {
	h := sha256.Sum256([]byte("key/" + name))
	k, err := crypto.ToECDSA(h[:])
	Must(err)
	return &Key{Name: name, ECDSA: k, Priv: &ethsecp256k1.PrivKey{Key: crypto.FromECDSA(k)}, Addr: crypto.PubkeyToAddress(k.PublicKey)}
}

// Acc is the chain address of the key.
func (k *Key) Acc() sdk.AccAddress { return sdk.AccAddress(k.Addr.Bytes()) }

// EthChainID is the Ethereum chain id of the worlds.
func EthChainID() *big.Int { return evmtypes.ConvertCosmosChainIDToEthereumChainID(ChainID) }

// SignEth signs an Ethereum transaction.
func (k *Key) SignEth(data coretypes.TxData) *coretypes.Transaction {
	t, err := coretypes.SignTx(coretypes.NewTx(data), coretypes.LatestSignerForChainID(EthChainID()), k.ECDSA)
	Must(err)
	return t
}

var txConfig client.TxConfig

// TxConfig is the chain's transaction codec.
func TxConfig() client.TxConfig {
	if txConfig == nil {
		txConfig = encoding().TxConfig
	}
	return txConfig
}

func init() { TxConfig() }

// EthToSDK converts an Ethereum transaction with the chain's own conversion.
// A panic (an amount beyond 256 bits) is a refusal: the callers recover it.
func (w *World) EthToSDK(ctx sdk.Context, t *coretypes.Transaction) (tx sdk.Tx, err error) {
	if p := Try(func() { tx, err = evmkeeper.NewTxUtils(w.K).ConvertEthereumTxToCosmosTx(ctx, t) }); p != "" {
		return nil, fmt.Errorf("%s", p)
	}
	return tx, err
}

// Encode encodes a transaction.
func (w *World) Encode(tx sdk.Tx) []byte {
	bz, err := w.App.TxEncode(tx)
	Must(err)
	return bz
}

// TxOpts describes a chain-signed transaction.
type TxOpts struct {
	Msgs    []sdk.Msg
	Gas     uint64
	Fee     sdk.Coins
	Seq     uint64
	AccNum  uint64
	Memo    string
	Granter sdk.AccAddress
	Payer   sdk.AccAddress
	Timeout uint64
	// a second signer (e.g. a fee payer)
	Key2    *Key
	Seq2    uint64
	AccNum2 uint64
}

// SignSDK builds a directly signed chain transaction.
func (k *Key) SignSDK(o TxOpts) sdk.Tx {
	b := TxConfig().NewTxBuilder()
	Must(b.SetMsgs(o.Msgs...))
	b.SetGasLimit(o.Gas)
	b.SetFeeAmount(o.Fee)
	b.SetMemo(o.Memo)
	b.SetTimeoutHeight(o.Timeout)
	if o.Granter != nil {
		b.SetFeeGranter(o.Granter)
	}
	if o.Payer != nil {
		b.SetFeePayer(o.Payer)
	}
	ks := []*Key{k}
	seqs, nums := []uint64{o.Seq}, []uint64{o.AccNum}
	if o.Key2 != nil {
		ks, seqs, nums = append(ks, o.Key2), append(seqs, o.Seq2), append(nums, o.AccNum2)
	}
	var sigs []signing.SignatureV2
	for i, x := range ks {
		sigs = append(sigs, signing.SignatureV2{PubKey: x.priv().PubKey(), Data: &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_DIRECT}, Sequence: seqs[i]})
	}
	Must(b.SetSignatures(sigs...))
	for i, x := range ks {
		s, err := clienttx.SignWithPrivKey(context.Background(), signing.SignMode_SIGN_MODE_DIRECT, authsigning.SignerData{
			Address: x.Acc().String(), ChainID: ChainID, AccountNumber: nums[i], Sequence: seqs[i], PubKey: x.priv().PubKey()}, b, x.priv(), TxConfig(), seqs[i])
		Must(err)
		sigs[i] = s
	}
	Must(b.SetSignatures(sigs...))
	return b.GetTx()
}

// GenAccount makes a genesis account for a key.
func (k *Key) GenAccount(num uint64) authtypes.GenesisAccount {
	return authtypes.NewBaseAccount(k.Acc(), k.priv().PubKey(), num, 0)
}

// ---- branching the application's own block state
//
// The application runs transactions on its block state; histories are explored by giving it a
// branched copy of that state, so that the real transaction pipeline (decoder, ante handler,
// message routing, post handler) runs on every branch.

func field(v reflect.Value, name string) reflect.Value {
	f := v.FieldByName(name)
	if !f.IsValid() {
		panic(HarnessFault("baseapp field " + name))
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func (w *World) stateField(name string) reflect.Value {
	return field(reflect.ValueOf(w.App.BaseApp).Elem(), name)
}

// StartBlock opens block state over the committed state, ready to deliver transactions.
func (w *World) StartBlock(height int64, t time.Time) {
	cms := w.App.CommitMultiStore()
	st := w.stateField("finalizeBlockState")
	n := reflect.New(st.Type().Elem())
	ms := cms.CacheMultiStore()
	hd := tmproto.Header{ChainID: ChainID, Height: height, Time: t, AppHash: w.App.LastCommitID().Hash}
	ctx := sdk.NewContext(ms, hd, false, w.App.Logger()).WithHeaderInfo(header.Info{ChainID: ChainID, Height: height, Time: t, Hash: BlockHash(height), AppHash: hd.AppHash}).
		WithHeaderHash(BlockHash(height)).WithExecMode(sdk.ExecModeFinalize).WithBlockGasMeter(storetypes.NewInfiniteGasMeter())
	field(n.Elem(), "ms").Set(reflect.ValueOf(ms))
	field(n.Elem(), "ctx").Set(reflect.ValueOf(ctx))
	st.Set(n)
}

// DropBlock throws the block state away.
func (w *World) DropBlock() { st := w.stateField("finalizeBlockState"); st.Set(reflect.Zero(st.Type())) }

// Save remembers the block state; calling the result returns to it (as often as wanted).
// Between Save and the return everything runs on a branch.
func (w *World) Save() (restore func()) {
	st := w.stateField("finalizeBlockState")
	old := reflect.ValueOf(st.Interface())
	oms := field(old.Elem(), "ms").Interface().(storetypes.CacheMultiStore)
	octx := field(old.Elem(), "ctx").Interface().(sdk.Context)
	ck := w.stateField("checkState")
	oldCk := reflect.ValueOf(ck.Interface())
	branch := func() {
		n := reflect.New(st.Type().Elem())
		ms := oms.CacheMultiStore()
		field(n.Elem(), "ms").Set(reflect.ValueOf(ms))
		field(n.Elem(), "ctx").Set(reflect.ValueOf(octx.WithMultiStore(ms).WithBlockGasMeter(storetypes.NewInfiniteGasMeter())))
		st.Set(n)
		if !oldCk.IsNil() {
			c := reflect.New(ck.Type().Elem())
			cms := field(oldCk.Elem(), "ms").Interface().(storetypes.CacheMultiStore).CacheMultiStore()
			cctx := field(oldCk.Elem(), "ctx").Interface().(sdk.Context)
			field(c.Elem(), "ms").Set(reflect.ValueOf(cms))
			field(c.Elem(), "ctx").Set(reflect.ValueOf(cctx.WithMultiStore(cms)))
			ck.Set(c)
		}
	}
	branch()
	return branch
}

// Ctx is the context of the block state.
func (w *World) Ctx() sdk.Context {
	return w.App.GetContextForFinalizeBlock(nil).WithGasMeter(storetypes.NewInfiniteGasMeter())
}

// CheckState makes CheckTx and simulation run on (a branch of) the current block state.
func (w *World) CheckState() {
	st := w.stateField("finalizeBlockState")
	ck := w.stateField("checkState")
	ms := field(st.Elem(), "ms").Interface().(storetypes.CacheMultiStore).CacheMultiStore()
	ctx := field(st.Elem(), "ctx").Interface().(sdk.Context)
	c := reflect.New(ck.Type().Elem())
	field(c.Elem(), "ms").Set(reflect.ValueOf(ms))
	field(c.Elem(), "ctx").Set(reflect.ValueOf(ctx.WithMultiStore(ms).WithIsCheckTx(true).WithExecMode(sdk.ExecModeCheck)))
	ck.Set(c)
}

// Delivered is the outcome of one transaction.
type Delivered struct {
	Err    string // "" when all messages succeeded
	Gas    uint64
	Want   uint64
	Events []abci.Event
	Data   []byte
}

// Deliver runs one transaction through the application on the block state.
func (w *World) Deliver(tx sdk.Tx) (d Delivered) {
	if p := Try(func() {
		gi, res, err := w.App.SimDeliver(TxConfig().TxEncoder(), tx)
		d.Gas, d.Want = gi.GasUsed, gi.GasWanted
		if err != nil {
			d.Err = err.Error()
			return
		}
		d.Events = res.Events
		d.Data = res.Data
	}); p != "" {
		d.Err = p
	}
	return
}

// Block finalises and commits a block of encoded transactions.
func (w *World) Block(h int64, txs ...[]byte) (*abci.ResponseFinalizeBlock, error) {
	res, err := w.App.FinalizeBlock(&abci.RequestFinalizeBlock{Height: h, Time: GenesisTime.Add(time.Duration(h) * time.Second), Hash: BlockHash(h), Txs: txs})
	if err != nil {
		return nil, err
	}
	if _, err = w.App.Commit(); err != nil {
		return nil, err
	}
	return res, nil
}

// EventList writes events out.
func EventList(ev []abci.Event) []string {
	var out []string
	for _, e := range ev {
		s := e.Type
		for _, a := range e.Attributes {
			s += fmt.Sprintf(" %s=%s", a.Key, a.Value)
		}
		out = append(out, s)
	}
	return out
}

// Ctx2 reads the committed state.
func (w *World) Ctx2() sdk.Context {
	return w.App.BaseApp.NewUncachedContext(false, tmproto.Header{ChainID: ChainID, Height: w.App.LastBlockHeight()})
}

// OnCtx makes transactions run on a branch made by Branch.
func (w *World) OnCtx(ctx sdk.Context) {
	st := w.stateField("finalizeBlockState")
	if st.IsNil() {
		panic(HarnessFault("no block state"))
	}
	octx := field(st.Elem(), "ctx").Interface().(sdk.Context)
	ms := ctx.MultiStore().(storetypes.CacheMultiStore)
	n := reflect.New(st.Type().Elem())
	field(n.Elem(), "ms").Set(reflect.ValueOf(ms))
	field(n.Elem(), "ctx").Set(reflect.ValueOf(octx.WithMultiStore(ms).WithBlockGasMeter(storetypes.NewInfiniteGasMeter())))
	st.Set(n)
}

// DeliverOn runs one transaction on a branch made by Branch; its effects stay on the branch.
func (w *World) DeliverOn(ctx sdk.Context, tx sdk.Tx) Delivered {
	w.OnCtx(ctx)
	return w.Deliver(tx)
}

// SignNoKey builds an encoded, directly signed transaction that leaves out the signer's public key,
// as a client may once the chain knows it.
func (k *Key) SignNoKey(o TxOpts) []byte {
	b := TxConfig().NewTxBuilder()
	Must(b.SetMsgs(o.Msgs...))
	b.SetMemo(o.Memo)
	bz, err := TxConfig().TxEncoder()(b.GetTx())
	Must(err)
	var raw txtypes.TxRaw
	Must(raw.Unmarshal(bz))
	ai := txtypes.AuthInfo{
		SignerInfos: []*txtypes.SignerInfo{{ModeInfo: &txtypes.ModeInfo{Sum: &txtypes.ModeInfo_Single_{Single: &txtypes.ModeInfo_Single{Mode: signing.SignMode_SIGN_MODE_DIRECT}}}, Sequence: o.Seq}},
		Fee:         &txtypes.Fee{Amount: o.Fee, GasLimit: o.Gas},
	}
	raw.AuthInfoBytes, err = ai.Marshal()
	Must(err)
	doc := txtypes.SignDoc{BodyBytes: raw.BodyBytes, AuthInfoBytes: raw.AuthInfoBytes, ChainId: ChainID, AccountNumber: o.AccNum}
	sb, err := doc.Marshal()
	Must(err)
	sig, err := k.priv().Sign(sb)
	Must(err)
	raw.Signatures = [][]byte{sig}
	bz, err = raw.Marshal()
	Must(err)
	return bz
}
