package index

import (
	"fmt"
	"strings"
	"testing"
	"time"

	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/trie"

	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// check compares the index with the block that was just committed.
func (l *lab) check(b *block, txs []tx) (bad string) {
	ctx := l.ctx()
	hd, err := l.idx.BlockHeaderByNumber(ctx, uint64(b.h))
	if err != nil {
		return "the block is not indexed: " + err.Error()
	}
	b.header, b.hash = hd, hd.Hash()
	if n, err := l.idx.BlockHashToNumber(ctx, b.hash); err != nil || n != uint64(b.h) {
		return fmt.Sprintf("the block's hash leads to %d, %v", n, err)
	}
	if x, err := l.idx.BlockHeaderByHash(ctx, b.hash); err != nil || x.Hash() != b.hash {
		return fmt.Sprintf("the block's hash leads to %+v, %v", x, err)
	}
	var eths coretypes.Transactions
	var recs coretypes.Receipts
	var logs []*coretypes.Log
	var groups [][]*coretypes.Log
	for i := range b.list {
		d := &b.list[i]
		eths = append(eths, d.eth)
		recs = append(recs, l.wantReceipt(d))
		logs = append(logs, l.wantLogs(d)...)
		if len(d.logs) > 0 {
			groups = append(groups, l.wantLogs(d))
		}
	}
	par := l.blocks[b.h-1]
	hasher := trie.NewStackTrie(nil)
	switch {
	case hd.Number.Int64() != b.h, hd.Time != uint64(GenesisTime.Add(time.Duration(b.h)*time.Second).Unix()):
		return fmt.Sprintf("the header has number %v and time %d", hd.Number, hd.Time)
	case hd.ParentHash != par.hash:
		return fmt.Sprintf("the parent is %s instead of %s", hd.ParentHash.Hex(), par.hash.Hex())
	case b.fee != nil && hd.BaseFee.Cmp(b.fee) != 0:
		return fmt.Sprintf("the base fee is %v instead of %v", hd.BaseFee, b.fee)
	case hd.GasUsed != b.gas:
		return fmt.Sprintf("the block used %d gas instead of %d", hd.GasUsed, b.gas)
	case hd.GasLimit != 1234000000:
		return fmt.Sprintf("the block's gas limit is %d", hd.GasLimit)
	case hd.Bloom != coretypes.CreateBloom(recs):
		return "the block's bloom filter is not that of its logs"
	case hd.TxHash != coretypes.DeriveSha(eths, hasher):
		return "the header's transactions root is not that of the executed transactions"
	case hd.ReceiptHash != coretypes.DeriveSha(recs, hasher):
		return "the header's receipts root is not that of the receipts"
	}
	// order and positions
	var got []*rpctypes.RPCTransaction
	Must(l.idx.IterateBlockTxs(ctx, uint64(b.h), func(t *rpctypes.RPCTransaction) (bool, error) { got = append(got, t); return false, nil }))
	var rs []*coretypes.Receipt
	Must(l.idx.IterateBlockTxRecepts(ctx, uint64(b.h), func(r *coretypes.Receipt) (bool, error) { rs = append(rs, r); return false, nil }))
	if len(got) != len(b.list) || len(rs) != len(b.list) {
		return fmt.Sprintf("the index has %d transactions and %d receipts instead of %d", len(got), len(rs), len(b.list))
	}
	for i := range b.list {
		d := &b.list[i]
		if got[i].Hash != d.eth.Hash() {
			return fmt.Sprintf("transaction %d is another one", i)
		}
		if rs[i].CumulativeGasUsed != d.cumul {
			return fmt.Sprintf("receipt %d is another one", i)
		}
		x, err := l.idx.TxByBlockAndIndex(ctx, uint64(b.h), uint64(i))
		if err != nil || x.Hash != d.eth.Hash() {
			return fmt.Sprintf("position %d: %+v, %v", i, x, err)
		}
		if s := l.one(d); s != "" {
			return s
		}
	}
	if x, err := l.idx.TxByBlockAndIndex(ctx, uint64(b.h), uint64(len(b.list))); err == nil {
		return fmt.Sprintf("position %d beyond the end is %s", len(b.list), x.Hash.Hex())
	}
	// the ones that were turned away
	for _, t := range txs {
		if t.eth == nil || t.runs {
			continue
		}
		if d := l.byHash[t.eth.Hash()]; d != nil {
			if s := l.one(d); s != "" {
				return "after it was given again: " + s
			}
		} else if x, err := l.idx.TxByHash(ctx, t.eth.Hash()); err == nil {
			return fmt.Sprintf("%s was turned away but is indexed: %+v", t.op, x)
		} else if _, err := l.idx.TxReceiptByHash(ctx, t.eth.Hash()); err == nil {
			return fmt.Sprintf("%s was turned away but has a receipt", t.op)
		}
	}
	// what subscribers are told
	late := time.After(20 * time.Second)
	for seen, n := false, 0; !seen || n < len(groups); {
		select {
		case x := <-l.heads:
			if seen || x.Hash() != b.hash {
				return "subscribers get another header"
			}
			seen = true
		case x := <-l.logs:
			if len(x) == 0 {
				continue
			}
			if n == len(groups) {
				return fmt.Sprintf("subscribers get more logs: %s", logText(x[0]))
			}
			if s := sameLogs(x, groups[n]); s != "" {
				return "subscribers: " + s
			}
			n++
		case <-late:
			return fmt.Sprintf("subscribers get no header (%t) or only %d of %d logs", seen, n, len(groups))
		}
	}
	return ""
}

// again compares everything that was ever indexed.
func (l *lab) again() string {
	for h := int64(2); l.blocks[h] != nil; h++ {
		b := l.blocks[h]
		x, err := l.idx.BlockHeaderByNumber(l.ctx(), uint64(h))
		if err != nil || x.Hash() != b.hash {
			return fmt.Sprintf("block %d changed later", h)
		}
		for i := range b.list {
			if s := l.one(&b.list[i]); s != "" {
				return "later on: " + s
			}
		}
	}
	return ""
}

type x01Case [][]string

func (k x01Case) String() string {
	var s []string
	for _, b := range k {
		s = append(s, strings.Join(b, ","))
	}
	return strings.Join(s, " | ")
}

func x01Cases(c *Check, yield func(x01Case) bool) {
	one := opNames
	for n := 0; n <= 2; n++ {
		var rec func(list []string) bool
		rec = func(list []string) bool {
			if len(list) == n {
				return yield(x01Case{append([]string{}, list...)})
			}
			for _, o := range one {
				if !rec(append(list, o)) {
					return false
				}
			}
			return true
		}
		if !rec(nil) {
			return
		}
	}
	three := []string{"plain", "p", "nest", "create", "revert", "send", "replay", "poor", "twist"}
	if c.Thorough() {
		three = opNames
	}
	for _, x := range three {
		for _, y := range three {
			for _, z := range three {
				if !yield(x01Case{{x, y, z}}) {
					return
				}
			}
		}
	}
	// what was turned away in one block may execute in a later one
	for _, x := range []string{"poor", "p,poor", "poor,q", "poor,poor"} {
		for _, y := range []string{"", "revert", "poor"} {
			for _, z := range []string{"funded", "p,funded", "funded,q", "funded,replay"} {
				k := x01Case{strings.Split(x, ",")}
				if y != "" {
					k = append(k, strings.Split(y, ","))
				}
				if !yield(append(k, strings.Split(z, ","))) {
					return
				}
			}
		}
	}
	// the same one in the block before
	for _, x := range []string{"p", "create", "revert", "nest"} {
		for _, y := range []string{"replay", "replay,p", "q,replay", "p,replay,replay"} {
			if !yield(x01Case{{x}, strings.Split(y, ",")}) {
				return
			}
		}
	}
}

// runCase plays the blocks one after the other.
func (l *lab) runCase(k x01Case) string {
	for _, ops := range k {
		var txs []tx
		poor := false
		for _, o := range ops {
			var t tx
			if o == "funded" {
				// the sender that could not pay gets the money: its transaction executes now
				txs = append(txs, l.fundDan())
				t = l.lastPoor()
				l.seqs[dan]++
				t.runs, t.ok, t.logs = true, true, l.pq(l.p)
				poor = true
			} else {
				t = l.make(o)
			}
			txs = append(txs, t)
			if t.eth != nil {
				l.sent = append(l.sent, t)
			}
		}
		if bad := l.play(strings.Join(ops, ","), txs); bad != "" {
			return bad
		}
		if poor {
			// and loses what is left
			if bad := l.play("drain", []tx{l.drainDan()}); bad != "" {
				return bad
			}
		}
	}
	return ""
}

func TestX01(t *testing.T) {
	Run("X01", "bounded", func(c *Check) {
		Parallel(c, 0, func(int) *lab { return newLab(nil) }, func(yield func(x01Case) bool) { x01Cases(c, yield) }, func(l *lab, k x01Case) {
			name := k.String()
			c.Exec(name)
			c.Trans(len(k))
			bad := l.runCase(k)
			if bad == "" {
				h := l.w.App.LastBlockHeight()
				if h%100 < int64(len(k)) {
					bad = l.again()
				}
			}
			if bad == "" {
				var shape []string
				for h := l.w.App.LastBlockHeight(); h > l.w.App.LastBlockHeight()-int64(len(k)); h-- {
					for _, d := range l.blocks[h].list {
						shape = append(shape, fmt.Sprintf("%d:%t:%d:%d", d.pos, d.ok, d.log0, len(d.logs)))
					}
					shape = append(shape, "/")
				}
				c.State(strings.Join(shape, " "))
				c.Validated(1)
				c.Outcome("agrees")
				return
			}
			c.Outcome("differs")
			c.Violate("X01|"+name, "block history ["+name+"]: "+bad, map[string]any{"blocks": k}, func() string { return newLab(nil).runCase(k) })
			*l = *newLab(nil)
		})
		c.Sample("block [nest,replay,poor]")
	})
}
