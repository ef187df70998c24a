package conc

import (
	"context"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/client"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/initia-labs/minievm/indexer"
	"github.com/initia-labs/minievm/jsonrpc/config"
	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"

	. "github.com/initia-labs/minievm/verifmc/core"
	"github.com/initia-labs/minievm/verifmc/sched"
)

// ---- inserting while subscribers come, go and stall

// j05Case has threads that insert transactions (numbers; with ! the mempool
// refuses it; - removes what was inserted last) and subscribers: a reads all,
// g reads nothing, l comes late; F and P are web socket clients who want whole
// transactions or hashes, p leaves at some point.
type j05Case struct {
	inserts []string
	subs    string
}

func (k j05Case) String() string { return strings.Join(k.inserts, "|") + " to " + k.subs }

func j05Cases(c *Check) (out []j05Case) {
	for _, ins := range [][]string{{"012"}, {"01!2"}, {"0-0"}, {"01", "23"}, {"01!", "2!3"}} {
		for _, subs := range []string{"", "a", "g", "ag", "al", "aa", "F", "P", "Pp", "FPg"} {
			if !c.Thorough() && (len(ins) == 2 && (subs == "aa" || subs == "FPg" || subs == "Pp") || ins[0] == "01!2" && len(subs) > 1 || subs == "FPg" || ins[0] == "0-0" && subs == "Pp") {
				continue
			}
			out = append(out, j05Case{ins, subs})
		}
	}
	return
}

func j05Run(c *Check, l *lab, txs []sdk.Tx, hashes []string, cs j05Case, explore func(func(*sched.S), func(*sched.S, []int) bool)) (bad string, at []int) {
	type sub struct {
		k    byte
		got  []string
		conn *conn
		late bool
	}
	var subs []*sub
	var per [][]string // accepted by each thread, in order
	var p *txPool
	var fault string
	var ready, done int
	explore(func(s *sched.S) {
		l.reset()
		name := map[sdk.Tx]string{}
		for i, t := range txs {
			name[t] = hashes[i]
		}
		subs, per, fault, ready, done = nil, make([][]string, len(cs.inserts)), "", 0, 0
		p = &txPool{refuse: map[string]bool{}, key: func(t sdk.Tx) string { return name[t] }}
		mp := l.idx.MempoolWrapper(p)
		read := func(x *sub) func() {
			return func() {
				hc, lc, pc := l.idx.Subscribe()
				if !x.late {
					ready++
				}
				for {
					a, b, t := sched.RecvCase(hc), sched.RecvCase(lc), sched.RecvCase(pc)
					if sched.Select("reader", false, a, b, t) == 2 {
						x.got = append(x.got, t.Val.Hash.Hex())
						if t.Val.BlockHash != nil || t.Val.BlockNumber != nil || t.Val.TransactionIndex != nil {
							fault = "a pending transaction is said to be in a block"
						}
					} else {
						fault = "a block appeared"
					}
				}
			}
		}
		need := 0
		for i := range cs.subs {
			x := &sub{k: cs.subs[i]}
			subs = append(subs, x)
			switch x.k {
			case 'a':
				need++
				sched.Go("reader", read(x))
			case 'l':
				x.late = true
				sched.Go("late", read(x))
			case 'g':
				need++
				sched.Go("gone", func() { l.idx.Subscribe(); ready++ })
			case 'F', 'P', 'p':
				need++
				x.conn = newConn()
				sched.Go("client", func() {
					api := l.api(time.Minute)
					full := x.k == 'F'
					var err error
					x.conn.sub, err = api.NewPendingTransactions(x.conn.ctx(), &full)
					Must(err)
					ready++
					if x.k == 'p' {
						sched.Yield("leaving")
						x.conn.leave()
					}
				})
			}
		}
		for ti, list := range cs.inserts {
			ti, list := ti, list
			sched.Go(fmt.Sprintf("mempool-%d", ti), func() {
				sched.Block("subscribers", func() bool { return ready >= need })
				var last sdk.Tx
				for i := 0; i < len(list); i++ {
					if list[i] == '-' {
						if err := mp.Remove(last); err != nil {
							fault = "removing failed"
						}
						continue
					}
					k := int(list[i] - '0')
					last = txs[k]
					refuse := i+1 < len(list) && list[i+1] == '!'
					if refuse {
						i++
						p.refuse[hashes[k]] = true
					}
					n := mp.CountTx()
					err := mp.Insert(l.ctx, txs[k])
					if (err != nil) != refuse {
						fault = fmt.Sprintf("the mempool's answer to %d is not passed on: %v", k, err)
					}
					if err == nil {
						per[ti] = append(per[ti], hashes[k])
					}
					if len(cs.inserts) == 1 && !refuse && mp.CountTx() != n+1 {
						fault = "the count is off"
					}
				}
				done++
			})
		}
	}, func(s *sched.S, ch []int) bool {
		c.Trans(s.Steps)
		bad = func() string {
			if len(s.Panics) > 0 {
				return "panic: " + s.Panics[0]
			}
			if len(s.Races) > 0 {
				return "race: " + s.Races[0]
			}
			if s.Spin || done != len(cs.inserts) {
				return fmt.Sprintf("inserting hangs: %v", s.Stuck)
			}
			if fault != "" {
				return fault
			}
			for _, x := range subs {
				if x.conn != nil {
					for _, v := range x.conn.got() {
						switch v := v.(type) {
						case *rpctypes.RPCTransaction:
							x.got = append(x.got, v.Hash.Hex())
							if x.k != 'F' {
								return "a client who wants hashes gets transactions"
							}
						case common.Hash:
							x.got = append(x.got, v.Hex())
							if x.k == 'F' {
								return "a client who wants transactions gets hashes"
							}
						default:
							return fmt.Sprintf("a client gets a %T", v)
						}
					}
				}
				if x.k == 'g' {
					continue
				}
				// what each thread had accepted, in its order, all of it unless late or leaving
				rest := append([]string{}, x.got...)
				total := 0
				for _, list := range per {
					var mine []string
					for _, g := range x.got {
						for _, h := range list {
							if g == h {
								mine = append(mine, g)
								break
							}
						}
					}
					total += len(mine)
					whole := strings.Join(list, " ") + " "
					m := strings.Join(mine, " ") + " "
					if len(mine) == 0 {
						m = ""
					}
					if len(list) == 0 {
						whole = ""
					}
					switch {
					case x.k == 'l' && strings.HasSuffix(whole, m), x.k == 'p' && strings.HasPrefix(whole, m), whole == m:
					default:
						return fmt.Sprintf("a subscriber (%c) was told of %v instead of %v", x.k, mine, list)
					}
				}
				if total != len(rest) {
					return fmt.Sprintf("a subscriber was told of %v; the mempool took %v", x.got, per)
				}
			}
			return ""
		}()
		if bad != "" {
			at = append([]int{}, ch...)
			return false
		}
		key := cs.String()
		for _, x := range subs {
			key += fmt.Sprint(x.got)
		}
		c.State(key)
		c.Validated(1)
		return true
	})
	return
}

// ---- the view of the node's mempool

// BroadcastTxSync goes through the application, as CometBFT's mempool does.
type realNode struct{ *node }

func (n realNode) add(bz []byte) uint32 {
	r, err := n.l.w.App.CheckTx(&abci.RequestCheckTx{Tx: bz, Type: abci.CheckTxType_New})
	Must(err)
	if r.Code == 0 {
		n.txs = append(n.txs, bz)
	}
	return r.Code
}

type j05World struct {
	l    *lab
	orig *indexer.EVMIndexerImpl
	snap indexer.EVMIndexerImpl
}

type pendTx struct {
	name string
	bz   []byte
	eth  *coretypes.Transaction
	from common.Address
}

func (w *j05World) seq(k *Key) uint64 {
	return w.l.w.App.AccountKeeper.GetAccount(w.l.w.Ctx2(), k.Acc()).GetSequence()
}

// make builds the transaction: a, b next of ann, ben; A the one after it; ' another with the same
// nonce; n creates a contract; c a chain transaction of cat; m one of cat's that looks like an
// Ethereum transaction but is not, without a public key.
func (w *j05World) make(op string) pendTx {
	out := pendTx{name: op}
	to := Addr("conc-to")
	if strings.HasSuffix(op, "'") {
		to = Addr("conc-to'")
	}
	switch op[0] {
	case 'a', 'A', 'b', 'n':
		k := ann
		if op[0] == 'b' {
			k = ben
		}
		d := &coretypes.DynamicFeeTx{ChainID: EthChainID(), Nonce: w.seq(k), GasFeeCap: big.NewInt(0), GasTipCap: big.NewInt(0), Gas: 400000, To: &to, Value: big.NewInt(0)}
		if op[0] == 'A' {
			d.Nonce++
		}
		if op[0] == 'n' {
			d.To, d.Data = nil, common.FromHex("600080f3")
		}
		out.eth, out.from = k.SignEth(d), k.Addr
		x, err := w.l.w.EthToSDK(w.l.w.Ctx2(), out.eth)
		Must(err)
		out.bz = w.l.w.Encode(x)
	case 'c', 'm':
		acc := w.l.w.App.AccountKeeper.GetAccount(w.l.w.Ctx2(), cat.Acc())
		o := TxOpts{Msgs: []sdk.Msg{&banktypes.MsgSend{FromAddress: cat.Acc().String(), ToAddress: ann.Acc().String(), Amount: Coins("1" + FeeDenom)}}, Gas: 400000, Seq: acc.GetSequence(), AccNum: acc.GetAccountNumber()}
		if op[0] == 'c' {
			out.bz = w.l.w.Encode(cat.SignSDK(o))
		} else {
			o.Memo = "{}"
			out.bz = cat.SignNoKey(o)
		}
	}
	return out
}

func (w *j05World) run(c *Check, ops []string) (bad string) {
	app := w.l.w.App
	*w.orig = w.snap
	nd := realNode{&node{l: w.l}}
	b := w.l.backend(client.Context{}.WithClient(nd).WithTxConfig(TxConfig()), config.DefaultJSONRPCConfig())
	var told, want []string
	known := map[string]pendTx{}
	fail := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	s, _ := sched.Run(nil, 1<<20, false, func(*sched.S) {
		sched.Go("reader", func() {
			hc, lc, pc := w.orig.Subscribe()
			for {
				a, b, t := sched.RecvCase(hc), sched.RecvCase(lc), sched.RecvCase(pc)
				if sched.Select("reader", false, a, b, t) == 2 {
					told = append(told, t.Val.Hash.Hex())
				}
			}
		})
		sched.Go("node", func() {
			// an empty mempool
			for it := app.Mempool().Select(context.Background(), nil); it != nil; it = it.Next() {
				_ = app.Mempool().Remove(it.Tx())
			}
			if _, err := w.l.w.Block(app.LastBlockHeight() + 1); err != nil {
				panic(err)
			}
			view := func() {
				var pend []string
				content := map[string]string{}
				n := 0
				for _, bz := range nd.txs {
					t := known[string(bz)]
					if t.eth == nil {
						continue
					}
					n++
					if n <= 100 {
						pend = append(pend, t.eth.Hash().Hex())
					} else {
						continue // the node's endpoint pages at 100
					}
					content[fmt.Sprintf("%s/%d", t.from.Hex(), t.eth.Nonce())] = t.eth.Hash().Hex()
				}
				got, err := b.PendingTransactions()
				if err != nil {
					fail("listing the pending transactions fails: %v", err)
					return
				}
				var g []string
				for _, t := range got {
					g = append(g, t.Hash.Hex())
					o := known[""]
					for _, k := range known {
						if k.eth != nil && k.eth.Hash() == t.Hash {
							o = k
						}
					}
					if o.eth == nil || t.From != o.from || uint64(t.Nonce) != o.eth.Nonce() || t.BlockHash != nil || t.BlockNumber != nil {
						fail("a pending transaction reads %+v", t)
					}
				}
				if strings.Join(g, " ") != strings.Join(pend, " ") {
					fail("pending are %v instead of %v", g, pend)
				}
				txc, err := b.TxPoolContent()
				if err != nil {
					fail("the content of the pool cannot be had: %v", err)
					return
				}
				flat := map[string]string{}
				for who, m := range txc["pending"] {
					for k, t := range m {
						if k != fmt.Sprint(uint64(t.Nonce)) {
							fail("nonce %d is listed as %s", uint64(t.Nonce), k)
						}
						flat[who+"/"+k] = t.Hash.Hex()
					}
				}
				if d := DiffMaps(content, flat); len(d) > 0 {
					fail("the pool's content differs: %v", d)
				}
				if len(txc["queued"]) != 0 {
					fail("queued are %v", txc["queued"])
				}
				for _, k := range []*Key{ann, ben} {
					m, err := b.TxPoolContentFrom(k.Addr)
					if err != nil {
						fail("the content of one sender cannot be had: %v", err)
						return
					}
					for n, t := range m["pending"] {
						if content[k.Addr.Hex()+"/"+n] != t.Hash.Hex() {
							fail("the content of one sender differs")
						}
					}
				}
				st, err := b.TxPoolStatus()
				if err != nil || int(st["pending"]) != len(nd.txs) || st["queued"] != 0 {
					fail("the status is %v, %v", st, err)
				}
				// pending nonce
				for _, k := range []*Key{ann, ben} {
					pn := w.seq(k)
					for _, bz := range nd.txs {
						if t := known[string(bz)]; t.eth != nil && t.from == k.Addr {
							pn++
						}
					}
					num := rpc.BlockNumberOrHashWithNumber(rpc.PendingBlockNumber)
					got, err := b.GetTransactionCount(k.Addr, num)
					if err != nil || got == nil || uint64(*got) != pn {
						fail("the pending nonce is %v (%v) instead of %d", got, err, pn)
					}
				}
			}
			told, want = nil, nil
			sched.Idle()
			made := map[string]pendTx{}
			for _, op := range ops {
				switch op {
				case "block", "first", "empty":
					k := len(nd.txs)
					if op == "first" && k > 1 {
						k = 1
					} else if op == "empty" {
						k = 0
					}
					var in [][]byte
					for _, t := range nd.txs[:k] {
						in = append(in, t)
					}
					if _, err := w.l.w.Block(app.LastBlockHeight()+1, in...); err != nil {
						fail("the block fails: %v", err)
						return
					}
					rest := nd.txs[k:]
					nd.txs = nil
					for _, t := range rest {
						r, err := app.CheckTx(&abci.RequestCheckTx{Tx: t, Type: abci.CheckTxType_Recheck})
						Must(err)
						if r.Code == 0 {
							nd.txs = append(nd.txs, t)
						}
					}
					made = map[string]pendTx{}
				case "many":
					for i := 0; i < 120; i++ {
						d := &coretypes.DynamicFeeTx{ChainID: EthChainID(), Nonce: w.seq(ben) + uint64(i), GasFeeCap: big.NewInt(0), GasTipCap: big.NewInt(0), Gas: 400000, To: &ann.Addr, Value: big.NewInt(0)}
						t := pendTx{name: op, eth: ben.SignEth(d), from: ben.Addr}
						x, err := w.l.w.EthToSDK(w.l.w.Ctx2(), t.eth)
						Must(err)
						t.bz = w.l.w.Encode(x)
						known[string(t.bz)] = t
						if nd.add(t.bz) == 0 {
							want = append(want, t.eth.Hash().Hex())
						}
						if i%40 == 34 {
							view()
						}
					}
				default:
					t, ok := made[op]
					if !ok {
						t = w.make(op)
						made[op] = t
					}
					known[string(t.bz)] = t
					code := nd.add(t.bz)
					if code == 0 && t.eth != nil {
						want = append(want, t.eth.Hash().Hex())
					}
					c.Outcome(fmt.Sprintf("check of %c: %d", op[0], code))
				}
				sched.Idle()
				view()
			}
			sched.Idle()
			if strings.Join(told, " ") != strings.Join(want, " ") {
				fail("the subscriber was told of %v; the mempool took %v", told, want)
			}
		})
	})
	if len(s.Panics) > 0 {
		fail("panic: %s", s.Panics[0])
	}
	c.Trans(len(ops))
	sort.Strings(told)
	return
}

func TestJ05(t *testing.T) {
	Run("J05", "bounded", func(c *Check) {
		sched.NoStmts, sched.DelayBound = true, true
		l := newLab()
		total, complete := 0, true
		b := l.block(2, 0, 0, 0, 0)
		var txs []sdk.Tx
		var hashes []string
		for i, bz := range b.req.Txs {
			x, err := l.w.App.TxDecode(bz)
			Must(err)
			txs = append(txs, x)
			hashes = append(hashes, b.txs[i].Hash().Hex())
		}
		for _, cs := range j05Cases(c) {
			if c.Expired() || c.Violations() > 20 {
				complete = false
				break
			}
			var st sched.Stats
			bad, at := j05Run(c, l, txs, hashes, cs, func(setup func(*sched.S), after func(*sched.S, []int) bool) {
				st = sched.Explore(Pick(c, 2, 3), 20000, setup, after, c.Expired)
			})
			total += st.Schedules
			c.Exec(cs.String())
			if bad == "" {
				complete = complete && st.Complete
				c.Outcome("reported once")
				continue
			}
			c.Outcome("differs")
			c.Violate("J05|"+cs.String(), cs.String()+": "+bad, map[string]any{"case": cs.String(), "schedule": at}, func() string {
				b, _ := j05Run(c, l, txs, hashes, cs, func(setup func(*sched.S), after func(*sched.S, []int) bool) {
					s, ch := sched.Run(at, 20000, false, setup)
					after(s, ch)
				})
				return b
			})
		}
		c.Note("schedules", total)
		if !complete {
			c.Truncate("not every schedule within the bound was run")
		}
		// the node's view
		w := &j05World{l: l, orig: l.orig, snap: *l.orig}
		al := []string{"a", "a'", "A", "b", "n", "c", "m", "block", "first"}
		var seqs [][]string
		for _, x := range al {
			for _, y := range al {
				if !c.Thorough() {
					seqs = append(seqs, []string{x, y, "block"})
					continue
				}
				for _, z := range al {
					seqs = append(seqs, []string{x, y, z, "block"})
				}
			}
		}
		seqs = append(seqs, []string{"a", "A", "first", "b", "empty", "a"}, []string{"a", "A", "b", "c", "first", "first", "n", "block"}, []string{"many", "first", "block"})
		for _, q := range seqs {
			if c.Expired() || c.Violations() > 20 {
				c.Truncate("not every sequence was run")
				break
			}
			name := "node " + strings.Join(q, ",")
			c.Exec(name)
			c.Validated(1)
			c.State(name)
			if bad := w.run(c, q); bad != "" {
				c.Violate("J05|"+name, name+": "+bad, map[string]any{"case": name}, func() string { return w.run(c, q) })
			}
		}
		c.Sample("case: " + j05Cases(c)[0].String())
	})
}
