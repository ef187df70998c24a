package conc

import (
	"context"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"cosmossdk.io/log"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cometbft/cometbft/libs/bytes"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/client"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/server"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/gogoproto/proto"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/initia-labs/minievm/indexer"
	"github.com/initia-labs/minievm/jsonrpc/backend"
	"github.com/initia-labs/minievm/jsonrpc/config"
	"github.com/initia-labs/minievm/jsonrpc/namespaces/eth/filters"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

var _ = bytes.HexBytes{}

var (
	ann = NewKey("conc-ann")
	ben = NewKey("conc-ben")
	cat = NewKey("conc-cat")
)

// blk is one block of the chain that the lab plays.
type blk struct {
	h    int64
	txs  []*coretypes.Transaction
	req  abci.RequestFinalizeBlock
	res  abci.ResponseFinalizeBlock
	logs []*coretypes.Log // expected, in order
	hash common.Hash
	ctx  sdk.Context
}

type lab struct {
	w     *World
	ctx   sdk.Context
	idx   *indexer.EVMIndexerImpl
	orig  *indexer.EVMIndexerImpl // the one the node made
	snap  indexer.EVMIndexerImpl
	fresh bool
	kinds map[int]*blk
}

func setField(v reflect.Value, x reflect.Value) {
	reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem().Set(x)
}

// newLab makes the node; rewritten code runs for real here.
func newLab() *lab {
	l := &lab{kinds: map[int]*blk{}}
	l.w = NewWorld(WorldCfg{Opts: AppOpts{"indexer.enable": true, "indexer.cache-capacity": 1, "indexer.backend": map[string]any{}}, GenAccs: []authtypes.GenesisAccount{ann.GenAccount(0), ben.GenAccount(1), cat.GenAccount(2)}})
	l.ctx = l.w.Base.WithBlockGasMeter(storetypes.NewInfiniteGasMeter())
	l.orig = l.w.App.EVMIndexer().(*indexer.EVMIndexerImpl)
	l.newIndexer()
	return l
}

func (l *lab) newIndexer() {
	if l.idx != nil {
		l.closeIndexer()
	}
	x, err := indexer.NewEVMIndexer(dbm.NewMemDB(), l.w.App.AppCodec(), log.NewNopLogger(), TxConfig(), l.w.App.EVMKeeper, l.w.App.OPChildKeeper)
	Must(err)
	l.idx = x.(*indexer.EVMIndexerImpl)
	l.snap = *l.idx
	// the node serves this one
	v := reflect.ValueOf(l.w.App).Elem()
	t := reflect.TypeOf((*indexer.EVMIndexer)(nil)).Elem()
	n := 0
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == t {
			setField(v.Field(i), reflect.ValueOf(x))
			n++
		}
	}
	if n != 1 {
		panic(HarnessFault(fmt.Sprintf("the app has %d indexers", n)))
	}
}

func (l *lab) closeIndexer() {
	v := reflect.ValueOf(l.idx).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*indexer.CacheStore)(nil)) {
			closeCache((*indexer.CacheStore)(v.Field(i).UnsafePointer()))
		}
	}
}

// reset gives an indexer without subscribers. What is found with a reused one
// is confirmed with a new one.
func (l *lab) reset() {
	if l.fresh {
		l.newIndexer()
		return
	}
	*l.idx = l.snap
}

// block makes block h with the given number of logs for each transaction;
// -1 is a failed transaction.
func (l *lab) block(h int64, logs ...int) *blk {
	b := &blk{h: h, ctx: l.ctx.WithBlockHeight(h).WithBlockTime(GenesisTime.Add(time.Duration(h) * time.Second))}
	for i, n := range logs {
		to := Addr("conc-to")
		tx := ann.SignEth(&coretypes.DynamicFeeTx{ChainID: EthChainID(), Nonce: uint64(h)*10 + uint64(i), GasFeeCap: big.NewInt(0), GasTipCap: big.NewInt(0), Gas: 200000, To: &to, Value: big.NewInt(0), Data: []byte{byte(h), byte(i)}})
		sdkTx, err := l.w.EthToSDK(l.ctx, tx)
		Must(err)
		b.txs = append(b.txs, tx)
		b.req.Txs = append(b.req.Txs, l.w.Encode(sdkTx))
		r := &abci.ExecTxResult{GasUsed: 21000, GasWanted: 200000}
		if n < 0 {
			r.Code = 5
			r.Events = []abci.Event{{Type: "tx"}} // it went past the ante handler
		} else {
			resp := &evmtypes.MsgCallResponse{}
			for k := 0; k < n; k++ {
				lg := evmtypes.Log{Address: Addr(fmt.Sprintf("conc-log-%d", k%2)).Hex(), Topics: []string{common.BytesToHash([]byte{byte(k + 1)}).Hex()}, Data: "0x0" + fmt.Sprint(k)}
				resp.Logs = append(resp.Logs, lg)
				b.logs = append(b.logs, &coretypes.Log{Address: common.HexToAddress(lg.Address), Topics: []common.Hash{common.HexToHash(lg.Topics[0])}, Data: common.FromHex(lg.Data), BlockNumber: uint64(h), TxHash: tx.Hash()})
			}
			any, err := codectypes.NewAnyWithValue(resp)
			Must(err)
			r.Data, err = proto.Marshal(&sdk.TxMsgData{MsgResponses: []*codectypes.Any{any}})
			Must(err)
		}
		b.res.TxResults = append(b.res.TxResults, r)
	}
	b.req.Height = h
	return b
}

// index has the indexer process the block, as the node does.
func (l *lab) index(b *blk) {
	ctx := b.ctx
	Must(l.idx.ListenFinalizeBlock(ctx, b.req, b.res))
	Must(l.idx.ListenCommit(ctx, abci.ResponseCommit{}, nil))
}

func logKey(g *coretypes.Log) string {
	return fmt.Sprintf("%d/%s/%s/%x/%x", g.BlockNumber, g.TxHash.Hex()[:8], g.Address.Hex()[:8], g.Topics, g.Data)
}

func logKeys(gs []*coretypes.Log) []string {
	var o []string
	for _, g := range gs {
		o = append(o, logKey(g))
	}
	return o
}

// api makes the filter API of the node.
func (l *lab) backend(cl client.Context, cfg config.JSONRPCConfig) *backend.JSONRPCBackend {
	b, err := backend.NewJSONRPCBackend(l.w.App, log.NewNopLogger(), server.NewDefaultContext(), cl, cfg)
	Must(err)
	return b
}

func (l *lab) api(timeout time.Duration) *filters.FilterAPI {
	cfg := config.DefaultJSONRPCConfig()
	cfg.FilterTimeout = timeout
	return filters.NewFilterAPI(l.w.App, l.backend(client.Context{}, cfg), log.NewNopLogger())
}

// conn is one subscription of a web socket client.
type conn struct {
	n   *rpc.Notifier
	sub *rpc.Subscription
}

type notifyCtx struct {
	context.Context
	n *rpc.Notifier
}

func (c notifyCtx) Value(k any) any {
	if fmt.Sprintf("%T", k) == "rpc.notifierKey" {
		return c.n
	}
	return c.Context.Value(k)
}

var connIDs int

func newConn() *conn {
	n := &rpc.Notifier{}
	h := reflect.ValueOf(n).Elem().FieldByName("h")
	hv := reflect.New(h.Type().Elem())
	connIDs++
	id := rpc.ID(fmt.Sprintf("0xc%d", connIDs))
	setField(hv.Elem().FieldByName("idgen"), reflect.ValueOf(func() rpc.ID { return id }))
	setField(h, hv)
	return &conn{n: n}
}

func (c *conn) ctx() context.Context { return notifyCtx{context.Background(), c.n} }

// got is what was sent to the client.
func (c *conn) got() []any {
	f := reflect.ValueOf(c.n).Elem().FieldByName("buffer")
	return *(*[]any)(unsafe.Pointer(f.UnsafeAddr()))
}

// leave closes the connection.
func (c *conn) leave() {
	f := reflect.ValueOf(c.sub).Elem().FieldByName("err")
	close(*(*chan error)(unsafe.Pointer(f.UnsafeAddr())))
}

func suffix(all, got []string) bool {
	if len(got) > len(all) {
		return false
	}
	return strings.Join(all[len(all)-len(got):], " ") == strings.Join(got, " ")
}
