package index

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"
	"unsafe"

	"cosmossdk.io/log"
	storetypes "cosmossdk.io/store/types"
	"github.com/allegro/bigcache/v3"
	abci "github.com/cometbft/cometbft/abci/types"
	comettypes "github.com/cometbft/cometbft/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/indexer"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// disk is what would be on disk: a database that remembers the order of its
// atomic writes. A batch is one; every Set or Delete by itself is one.
type disk struct {
	dbm.DB
	name string
	log  *writeLog
}

type write struct {
	del      bool
	key, val string
}

type entry struct {
	db string
	ws []write
}

type writeLog struct {
	sync.Mutex
	list []entry
}

func (l *writeLog) add(db string, ws []write) {
	l.Lock()
	defer l.Unlock()
	if len(ws) > 0 {
		l.list = append(l.list, entry{db, ws})
	}
}

func (l *writeLog) take() []entry {
	l.Lock()
	defer l.Unlock()
	x := l.list
	l.list = nil
	return x
}

func newDisk(name string, log *writeLog, from map[string]string) *disk {
	d := &disk{DB: dbm.NewMemDB(), name: name, log: log}
	for k, v := range from {
		Must(d.DB.Set([]byte(k), []byte(v)))
	}
	return d
}

func (d *disk) one(w write, err error) error {
	if err == nil {
		d.log.add(d.name, []write{w})
	}
	return err
}
func (d *disk) Set(k, v []byte) error {
	return d.one(write{false, string(k), string(v)}, d.DB.Set(k, v))
}
func (d *disk) SetSync(k, v []byte) error { return d.Set(k, v) }
func (d *disk) Delete(k []byte) error     { return d.one(write{true, string(k), ""}, d.DB.Delete(k)) }
func (d *disk) DeleteSync(k []byte) error { return d.Delete(k) }
func (d *disk) NewBatch() dbm.Batch       { return &diskBatch{Batch: d.DB.NewBatch(), d: d} }
func (d *disk) NewBatchWithSize(n int) dbm.Batch {
	return &diskBatch{Batch: d.DB.NewBatchWithSize(n), d: d}
}
func (d *disk) dump() map[string]string {
	out := map[string]string{}
	it, err := d.DB.Iterator(nil, nil)
	Must(err)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		out[string(it.Key())] = string(it.Value())
	}
	return out
}

type diskBatch struct {
	dbm.Batch
	d  *disk
	ws []write
}

func (b *diskBatch) Set(k, v []byte) error {
	b.ws = append(b.ws, write{false, string(k), string(v)})
	return b.Batch.Set(k, v)
}

func (b *diskBatch) Delete(k []byte) error {
	b.ws = append(b.ws, write{true, string(k), ""})
	return b.Batch.Delete(k)
}

func (b *diskBatch) Write() error {
	err := b.Batch.Write()
	if err == nil {
		b.d.log.add(b.d.name, b.ws)
		b.ws = nil
	}
	return err
}
func (b *diskBatch) WriteSync() error { return b.Write() }

// after returns the contents once the writes to the database have been done.
func after(from map[string]string, name string, list []entry) map[string]string {
	out := make(map[string]string, len(from))
	for k, v := range from {
		out[k] = v
	}
	for _, e := range list {
		if e.db != name {
			continue
		}
		for _, w := range e.ws {
			if w.del {
				delete(out, w.key)
			} else {
				out[w.key] = w.val
			}
		}
	}
	return out
}

// tap sees what the indexer is given, in the order it is given it.
type tap struct {
	storetypes.ABCIListener
	ctx context.Context
	req abci.RequestFinalizeBlock
	res abci.ResponseFinalizeBlock
}

func (t *tap) ListenFinalizeBlock(ctx context.Context, req abci.RequestFinalizeBlock, res abci.ResponseFinalizeBlock) error {
	t.ctx, t.req, t.res = ctx, req, res
	return t.ABCIListener.ListenFinalizeBlock(ctx, req, res)
}

// dropCache ends the goroutine that would keep the indexer's cache alive.
func dropCache(idx *indexer.EVMIndexerImpl) {
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if v.Kind() == reflect.Pointer && !v.IsNil() {
			if b, ok := reflect.NewAt(v.Type(), unsafe.Pointer(&[]unsafe.Pointer{v.UnsafePointer()}[0])).Elem().Interface().(*bigcache.BigCache); ok {
				b.Close()
				return
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct || depth == 0 || !strings.HasSuffix(v.Type().PkgPath(), "minievm/indexer") {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), depth-1)
		}
	}
	walk(reflect.ValueOf(idx), 3)
}

// crashLab is a node whose index is on a recorded disk.
type crashLab struct {
	*lab
	log  *writeLog
	app  *disk
	dsk  *disk
	tap  *tap
	base map[string]string // of the index, before the block
	deep bool              // crash while indexing again, too
	n    map[string]int    // crash points by outcome
}

func newCrashLab(deep bool) *crashLab {
	k := &crashLab{log: &writeLog{}, n: map[string]int{}, deep: deep}
	k.dsk = newDisk("index", k.log, nil)
	k.lab = newLabOf(k.dsk, false)
	k.hook()
	k.log.take()
	k.base = k.dsk.dump()
	return k
}

func (k *crashLab) hook() {
	k.tap = &tap{ABCIListener: k.idx}
	k.w.App.SetStreamingManager(storetypes.StreamingManager{ABCIListeners: []storetypes.ABCIListener{k.tap}, StopNodeOnErr: true})
}

// state says how much of a block an index has.
func (l *lab) state(b *block) (state, what string) {
	ctx := l.ctx()
	var have, miss []string
	see := func(name string, ok bool) {
		if ok {
			have = append(have, name)
		} else {
			miss = append(miss, name)
		}
	}
	hd, err := l.idx.BlockHeaderByNumber(ctx, uint64(b.h))
	see("header", err == nil)
	if err == nil && hd.Hash() != b.hash {
		return "wrong", "another header"
	}
	n, err := l.idx.BlockHashToNumber(ctx, b.hash)
	see("number of the hash", err == nil)
	if err == nil && n != uint64(b.h) {
		return "wrong", "another number"
	}
	_, err = l.idx.BlockHeaderByHash(ctx, b.hash)
	see("header of the hash", err == nil)
	for i := range b.list {
		d := &b.list[i]
		h := d.eth.Hash()
		_, err = l.idx.TxByHash(ctx, h)
		see(fmt.Sprintf("transaction %d", i), err == nil)
		_, err = l.idx.TxReceiptByHash(ctx, h)
		see(fmt.Sprintf("receipt %d", i), err == nil)
		_, err = l.idx.TxByBlockAndIndex(ctx, uint64(b.h), uint64(i))
		see(fmt.Sprintf("transaction at position %d", i), err == nil)
		_, err = l.idx.CosmosTxHashByTxHash(ctx, h)
		see(fmt.Sprintf("chain hash %d", i), err == nil)
		_, err = l.idx.TxHashByCosmosTxHash(ctx, comettypes.Tx(d.bz).Hash())
		see(fmt.Sprintf("hash of the chain hash %d", i), err == nil)
	}
	if len(have) == 0 {
		return "absent", ""
	}
	if len(miss) > 0 {
		return "partial", fmt.Sprintf("it has [%s] but not [%s]", strings.Join(have, ", "), strings.Join(miss, ", "))
	}
	for i := range b.list {
		if s := l.one(&b.list[i]); s != "" {
			return "wrong", s
		}
	}
	return "full", ""
}

// open restarts the indexer on the disk.
func (k *crashLab) open(d *disk) *indexer.EVMIndexerImpl {
	x, err := indexer.NewEVMIndexer(d, k.w.App.AppCodec(), log.NewNopLogger(), TxConfig(), k.w.App.EVMKeeper, k.w.App.OPChildKeeper)
	Must(err)
	return x.(*indexer.EVMIndexerImpl)
}

// crash looks at the index left by the writes, has the block indexed again, and crashes during that, too.
func (k *crashLab) crash(c *Check, b *block, from map[string]string, list []entry, at int, want map[string]string, depth int, mustFull bool) string {
	left := after(from, "index", list[:at])
	lg := &writeLog{}
	d := newDisk("index", lg, left)
	real := k.idx
	k.idx = k.open(d)
	defer func() { dropCache(k.idx); k.idx = real }()
	where := fmt.Sprintf("crash after %d of %d writes of the index of block %d", at, len(list), b.h)
	st, what := k.state(b)
	k.n[st]++
	c.State(fmt.Sprintf("%s %d/%d %s", b.ops, at, len(list), st))
	c.Trans(1)
	switch {
	case st == "partial" || st == "wrong":
		return fmt.Sprintf("%s: the block is %s: %s", where, st, what)
	case at == len(list) && mustFull && st != "full":
		return where + ": the block was committed but is not indexed"
	}
	for h := b.h - 1; h >= 2 && h > b.h-4; h-- {
		if st, what := k.state(k.blocks[h]); st != "full" {
			return fmt.Sprintf("%s: the earlier block %d is now %s: %s", where, h, st, what)
		}
	}
	if p := Try(func() {
		Must(k.idx.ListenFinalizeBlock(k.tap.ctx, k.tap.req, k.tap.res))
		Must(k.idx.ListenCommit(k.tap.ctx, abci.ResponseCommit{}, nil))
	}); p != "" {
		return where + ": it cannot be indexed again: " + p
	}
	c.Trans(1)
	if diff := DiffMaps(want, d.dump()); len(diff) > 0 {
		return fmt.Sprintf("%s: indexed again the index differs from the one without a crash: %v", where, diff[:min(3, len(diff))])
	}
	if st, what := k.state(b); st != "full" {
		return fmt.Sprintf("%s: indexed again the block is %s: %s", where, st, what)
	}
	if depth > 1 {
		again := lg.take()
		for j := 0; j <= len(again); j++ {
			if s := k.crash(c, b, left, again, j, want, depth-1, false); s != "" {
				return where + ", then " + s
			}
		}
	}
	return ""
}

// explore plays the blocks and crashes at every write of each one's index.
func (k *crashLab) explore(c *Check, ops x01Case) string {
	for _, o := range ops {
		var txs []tx
		for _, n := range o {
			t := k.make(n)
			txs = append(txs, t)
			if t.eth != nil {
				k.sent = append(k.sent, t)
			}
		}
		if bad := k.play(strings.Join(o, ","), txs); bad != "" {
			return bad
		}
		list := k.log.take()
		b := k.blocks[k.w.App.LastBlockHeight()]
		want := k.dsk.dump()
		depth := 2
		if k.deep {
			depth = 3
		}
		for at := 0; at <= len(list); at++ {
			if s := k.crash(c, b, k.base, list, at, want, depth, true); s != "" {
				return s
			}
		}
		k.base = want
	}
	return ""
}

// reopen starts the node again on what is on its disks.
func reopen(app, idx *disk) *minievmapp.MinitiaApp {
	e := evmconfig.DefaultEVMConfig()
	e.IndexerCacheSize = 1
	return minievmapp.NewMinitiaApp(log.NewNopLogger(), app, idx, dbm.NewMemDB(), nil, true, e, worldCfg().Opts, baseapp.SetChainID(ChainID))
}

// restarts plays a block on a node with both disks recorded, and starts the node again at
// every point at which either the chain's state or the index reached its disk.
func restarts(c *Check, hist x01Case) string {
	lg := &writeLog{}
	k := &crashLab{log: lg, n: map[string]int{}}
	k.app, k.dsk = newDisk("app", lg, nil), newDisk("index", lg, nil)
	k.lab = newLabOn(k.app, k.dsk)
	k.hook()
	for _, ops := range hist[:len(hist)-1] {
		if bad := k.run(ops...); bad != "" {
			return bad
		}
	}
	lg.take()
	app0, idx0 := k.app.dump(), k.dsk.dump()
	before := k.w.App.LastBlockHeight()
	last := hist[len(hist)-1]
	if bad := k.run(last...); bad != "" {
		return bad
	}
	req := k.tap.req
	list := lg.take()
	app1, idx1 := k.app.dump(), k.dsk.dump()
	hash := k.w.App.LastCommitID().String()
	b := k.blocks[before+1]
	// the chain's own writes belong together: a point is where the disk written to changes,
	// and every write of the index
	var points []int
	for i := 0; i <= len(list); i++ {
		if i == 0 || i == len(list) || list[i].db == "index" || list[i-1].db == "index" {
			points = append(points, i)
		}
	}
	real, realIdx := k.w.App, k.idx
	defer func() { k.w.App, k.idx = real, realIdx }()
	for _, at := range points {
		where := fmt.Sprintf("restart after %d of %d writes (%d of the index) of block %d", at, len(list), count(list[:at], "index"), b.h)
		da, di := newDisk("app", &writeLog{}, after(app0, "app", list[:at])), newDisk("index", &writeLog{}, after(idx0, "index", list[:at]))
		var app *minievmapp.MinitiaApp
		if p := Try(func() { app = reopen(da, di) }); p != "" {
			return where + ": the node does not start: " + p
		}
		k.w.App, k.idx = app, app.EVMIndexer().(*indexer.EVMIndexerImpl)
		st, what := k.state(b)
		h := app.LastBlockHeight()
		c.State(fmt.Sprintf("restart %s: height %+d, index %s", b.ops, h-before, st))
		c.Trans(1)
		c.Exec(fmt.Sprintf("restart %s %d", hist, at))
		if st == "partial" || st == "wrong" {
			return fmt.Sprintf("%s: the block is %s: %s", where, st, what)
		}
		for e := int64(2); e <= before; e++ {
			if st, what := k.state(k.blocks[e]); st != "full" {
				return fmt.Sprintf("%s: the earlier block %d is %s: %s", where, e, st, what)
			}
		}
		if h == before {
			// the node gets the block again
			if _, err := app.FinalizeBlock(&req); err != nil {
				return where + ": the block fails: " + err.Error()
			}
			if _, err := app.Commit(); err != nil {
				return where + ": " + err.Error()
			}
			if x := app.LastCommitID().String(); x != hash {
				return fmt.Sprintf("%s: played again the block leads to %s instead of %s", where, x, hash)
			}
			if diff := DiffMaps(idx1, di.dump()); len(diff) > 0 {
				return fmt.Sprintf("%s: played again the index differs: %v", where, diff[:min(3, len(diff))])
			}
			if st, what := k.state(b); st != "full" {
				return fmt.Sprintf("%s: played again the block is %s: %s", where, st, what)
			}
			c.Outcome("block played again")
			continue
		}
		c.Outcome("the chain is past the block, which is " + st)
	}
	_ = app1
	return ""
}

func count(list []entry, db string) (n int) {
	for _, e := range list {
		if e.db == db {
			n++
		}
	}
	return
}

func x02Cases(c *Check, yield func(x01Case) bool) {
	few := []string{"plain", "p", "nest", "create", "value", "revert", "gas", "send", "replay", "poor", "twist"}
	if c.Thorough() {
		few = opNames
	}
	if !yield(x01Case{{}}) {
		return
	}
	for _, x := range opNames {
		if !yield(x01Case{{x}}) {
			return
		}
	}
	for _, x := range few {
		for _, y := range few {
			if !yield(x01Case{{x, y}}) || !yield(x01Case{{x}, {y}}) {
				return
			}
		}
	}
	three := []string{"p", "revert", "create"}
	if c.Thorough() {
		three = few
	}
	for _, x := range three {
		for _, y := range three {
			for _, z := range three {
				if !yield(x01Case{{x, y, z}}) || !yield(x01Case{{x}, {}, {y, z}}) {
					return
				}
			}
		}
	}
}

func TestX02(t *testing.T) {
	Run("X02", "bounded", func(c *Check) {
		c.Assume("a batch reaches the disk whole or not at all, and batches in the order written (what the databases used promise); a write by itself is one step")
		c.Assume("the chain's own commit is one step: it belongs to the SDK")
		var mu sync.Mutex
		n := map[string]int{}
		Parallel(c, 0, func(int) *crashLab { return newCrashLab(c.Thorough()) }, func(yield func(x01Case) bool) { x02Cases(c, yield) }, func(k *crashLab, ops x01Case) {
			name := ops.String()
			c.Exec(name)
			k.n = map[string]int{}
			bad := k.explore(c, ops)
			mu.Lock()
			for s, x := range k.n {
				n[s] += x
			}
			mu.Unlock()
			if bad == "" {
				c.Validated(1)
				c.Outcome("whole or absent, and the same again")
				if k.w.App.LastBlockHeight() > 60 {
					*k = *newCrashLab(k.deep)
				}
				return
			}
			c.Outcome("differs")
			c.Violate("X02|"+name, "block history ["+name+"]: "+bad, map[string]any{"blocks": ops}, func() string { return newCrashLab(false).explore(c, ops) })
			*k = *newCrashLab(k.deep)
		})
		for s, x := range n {
			c.Note("crash points, block "+s, x)
		}
		hists := []x01Case{{{"p"}, {"nest", "revert", "create"}}}
		if c.Thorough() {
			hists = append(hists, x01Case{{}}, x01Case{{"create"}, {"p", "poor", "q"}}, x01Case{{"revert"}, {}, {"gas"}})
		}
		for _, h := range hists {
			if bad := restarts(c, h); bad != "" {
				c.Violate("X02|restart|"+h.String(), "block history ["+h.String()+"]: "+bad, map[string]any{"restart": h}, func() string { return restarts(c, h) })
			} else {
				c.Validated(1)
			}
		}
		c.Sample("crash after write 0 of block [p,revert], indexed again, crash after write 0")
	})
}
