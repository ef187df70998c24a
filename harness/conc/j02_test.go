package conc

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/mempool"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	ethfilters "github.com/ethereum/go-ethereum/eth/filters"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/initia-labs/minievm/jsonrpc/namespaces/eth/filters"
	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"

	. "github.com/initia-labs/minievm/verifmc/core"
	"github.com/initia-labs/minievm/verifmc/sched"
)

// txPool stands in for the mempool behind the wrapper: it takes what it is told to.
type txPool struct {
	mempool.Mempool
	refuse map[string]bool
	order  []string
	key    func(sdk.Tx) string
}

func (p *txPool) CountTx() int { return len(p.order) }

func (p *txPool) Insert(_ context.Context, tx sdk.Tx) error {
	k := p.key(tx)
	if p.refuse[k] {
		return errors.New("the mempool refuses it")
	}
	p.order = append(p.order, k)
	return nil
}

func (p *txPool) Remove(tx sdk.Tx) error {
	for i, k := range p.order {
		if k == p.key(tx) {
			p.order = append(p.order[:i:i], p.order[i+1:]...)
			return nil
		}
	}
	return mempool.ErrTxNotFound
}

// j02Case has clients who install, poll and remove filters, while a chain
// makes events. A client's script: n installs a filter, p polls, u removes,
// s sleeps half the timeout, i waits until all is quiet, N polls the filter of
// the first client. The chain's: e an event, s and i as before.
type j02Case struct {
	kind    byte // b blocks, l logs, h pending hashes, t pending transactions
	clients []string
	chain   string
	deviate int
}

func (k j02Case) String() string {
	return fmt.Sprintf("%c %s chain %s", k.kind, strings.Join(k.clients, "|"), k.chain)
}

func j02Cases(c *Check) (out []j02Case) {
	type sc struct {
		clients []string
		chain   string
	}
	scs := []sc{
		{[]string{"nppip"}, "ee"},
		{[]string{"nipu"}, "ee"},
		{[]string{"nup"}, "e"},
		{[]string{"npip", "NN"}, "ee"},
		{[]string{"nuip", "npip"}, "ee"},
		{[]string{"nspsspip"}, "eseise"},
		{[]string{"nssip"}, "isie"},
		{[]string{"sssnsspip"}, "ise"},
		{[]string{"sssnsip"}, "isie"},
		{[]string{"nspssssssip"}, "eiise"},
		{[]string{"nsssssip", "nspspspspspip"}, "esese"},
		{[]string{"nsssssu"}, "sssse"},
		{[]string{"nssssuip", "N"}, "sssse"},
		{[]string{"nini", "ip"}, "ie"},
	}
	if c.Thorough() {
		scs = append(scs, sc{[]string{"npip", "npip"}, "eee"}, sc{[]string{"npupnpip"}, "eeee"}, sc{[]string{"nspspip", "nup", "ssnpip"}, "esese"})
	}
	for _, k := range []byte("blht") {
		for i, s := range scs {
			if !c.Thorough() && (k == 'h' && i > 4 || k == 't' && i > 2) {
				continue
			}
			dev := Pick(c, 2, 3)
			if !c.Thorough() && len(s.clients) > 1 && (k != 'b' || len(s.clients[1]) > 10) {
				dev = 1
			}
			out = append(out, j02Case{kind: k, clients: s.clients, chain: s.chain, deviate: dev})
		}
	}
	return
}

const j02Timeout = time.Minute

// j02Filter is what is known of a filter.
type j02Filter struct {
	id      rpc.ID
	at      time.Time // last used
	first   int       // events that had begun when it was installed
	settled int       // events delivered everywhere before
	gone    bool
	removed bool
	got     []string
	final   bool // the last poll happened when all was quiet
}

func j02Run(c *Check, l *lab, cs j02Case, explore func(func(*sched.S), func(*sched.S, []int) bool)) (bad string, at []int) {
	n := strings.Count(cs.chain, "e")
	var blks []*blk
	var txs []sdk.Tx
	var hashes []string
	for i := 0; i < n; i++ {
		switch cs.kind {
		case 'b':
			blks = append(blks, l.block(int64(2+i)))
		case 'l':
			blks = append(blks, l.block(int64(2+i), 1+i%2))
		default:
			b := l.block(int64(2+i), 0)
			tx, err := l.w.App.TxDecode(b.req.Txs[0])
			Must(err)
			txs = append(txs, tx)
			hashes = append(hashes, b.txs[0].Hash().Hex())
		}
	}
	var evs [][]string // what each event brings
	l.reset()
	sched.Run(nil, 20000, false, func(*sched.S) {
		sched.Go("reference", func() {
			for _, b := range blks {
				l.index(b)
				h, err := l.idx.BlockHeaderByNumber(b.ctx, uint64(b.h))
				Must(err)
				if cs.kind == 'b' {
					evs = append(evs, []string{h.Hash().Hex()})
				} else {
					evs = append(evs, logKeys(b.logs))
				}
			}
			for _, h := range hashes {
				evs = append(evs, []string{h})
			}
		})
	})
	if len(evs) != n {
		panic(HarnessFault("the events could not be made"))
	}
	var fs []*j02Filter
	var fault string
	var base, open, subs int
	var done int
	var api *filters.FilterAPI
	explore(func(s *sched.S) {
		l.reset()
		fs, fault, base, open, done, api = nil, "", 0, 0, 0, nil
		begun, settled := 0, 0
		p := &txPool{key: func(tx sdk.Tx) string { return fmt.Sprintf("%p", tx) }}
		mp := l.idx.MempoolWrapper(p)
		fail := func(f string, a ...any) {
			if fault == "" {
				fault = fmt.Sprintf(f, a...)
			}
		}
		poll := func(f *j02Filter, final bool) {
			now := sched.Now()
			gap := now.Sub(f.at)
			was, wasRemoved := f.gone, f.removed
			r, err := api.GetFilterChanges(f.id)
			if err != nil {
				if !wasRemoved && !f.removed && gap <= j02Timeout && !was {
					fail("a filter used %v ago is gone: %v", gap, err)
				}
				f.gone = true
				return
			}
			if wasRemoved {
				fail("a removed filter answers")
			}
			if was {
				fail("a filter that was gone is back")
			}
			if gap > 2*j02Timeout {
				fail("a filter not used for %v still answers", gap)
			}
			f.at = now
			f.final = final
			switch r := r.(type) {
			case []common.Hash:
				for _, h := range r {
					f.got = append(f.got, h.Hex())
				}
			case []*coretypes.Log:
				f.got = append(f.got, logKeys(r)...)
			case []*rpctypes.RPCTransaction:
				for _, t := range r {
					f.got = append(f.got, t.Hash.Hex())
				}
			default:
				fail("a poll gives a %T", r)
			}
		}
		var one *j02Filter
		sched.Go("server", func() {
			api = l.api(j02Timeout)
			sched.Idle()
			base = s.Live()
			for ci, script := range cs.clients {
				ci, script := ci, script
				sched.Go(fmt.Sprintf("client-%d", ci), func() {
					var f *j02Filter
					for _, op := range script {
						switch op {
						case 'n':
							g := &j02Filter{settled: settled, at: sched.Now()}
							var err error
							switch cs.kind {
							case 'b':
								g.id, err = api.NewBlockFilter()
							case 'l':
								g.id, err = api.NewFilter(ethfilters.FilterCriteria{})
							case 'h':
								g.id, err = api.NewPendingTransactionFilter(nil)
							case 't':
								full := true
								g.id, err = api.NewPendingTransactionFilter(&full)
							}
							if err != nil {
								fail("installing failed: %v", err)
								continue
							}
							g.first = begun
							f = g
							fs = append(fs, g)
							if ci == 0 {
								one = g
							}
						case 'p':
							if f != nil {
								poll(f, false)
							}
						case 'N':
							sched.Block("the other's filter", func() bool { return one != nil })
							poll(one, false)
						case 'u':
							was := f.gone
							gap := sched.Now().Sub(f.at)
							f.removed = true
							ok := api.UninstallFilter(f.id)
							if !ok && !was && gap <= j02Timeout {
								fail("a filter used %v ago cannot be removed", gap)
							}
							if ok && was {
								fail("a filter that was gone could be removed")
							}
							f.gone = true
						case 's':
							sched.TimeSleep(j02Timeout / 2)
						case 'i':
							sched.Idle()
						}
					}
					done++
				})
			}
			sched.Go("chain", func() {
				i := 0
				for _, op := range cs.chain {
					switch op {
					case 'e':
						k := i
						i++
						begun = i
						if blks != nil {
							l.index(blks[k])
						} else if err := mp.Insert(l.ctx, txs[k]); err != nil {
							fail("inserting failed: %v", err)
						}
					case 's':
						sched.TimeSleep(j02Timeout / 2)
					case 'i':
						sched.Idle()
						settled = i
					}
				}
				done++
			})
			sched.Block("all done", func() bool { return done == len(cs.clients)+1 })
			sched.Idle()
			for _, f := range fs {
				if !f.gone {
					poll(f, true)
				}
				if !f.gone {
					f.gone = true
					if !api.UninstallFilter(f.id) {
						fail("a live filter cannot be removed")
					}
					if _, err := api.GetFilterChanges(f.id); err == nil {
						fail("a removed filter answers")
					}
				}
			}
			// what was not removed expires
			sched.TimeSleep(3 * j02Timeout)
			sched.Idle()
			open = s.Live()
			v := reflect.ValueOf(api).Elem()
			subs = v.FieldByName("subscriptions").Len() + v.FieldByName("filters").Len()
			done = -1
		})
		s.Quit = func() bool { return done < 0 }
	}, func(s *sched.S, ch []int) bool {
		c.Trans(s.Steps)
		bad = func() string {
			if len(s.Panics) > 0 {
				return "panic: " + s.Panics[0]
			}
			if len(s.Races) > 0 {
				return "race: " + s.Races[0]
			}
			if s.Spin {
				return fmt.Sprintf("does not come to rest: %v", s.Stuck)
			}
			if done != -1 {
				return fmt.Sprintf("a call hangs: %v", s.Stuck)
			}
			if fault != "" {
				return fault
			}
			for _, f := range fs {
				// the events from some point on, up to one if the filter went away
				ok := false
				for from := f.settled; from <= f.first && !ok; from++ {
					for to := from; to <= n; to++ {
						if f.final && to != n {
							continue
						}
						var want []string
						for _, e := range evs[from:to] {
							want = append(want, e...)
						}
						ok = ok || strings.Join(want, " ") == strings.Join(f.got, " ")
					}
				}
				if !ok {
					return fmt.Sprintf("a filter installed after %d to %d events gave %v of %v", f.settled, f.first, f.got, evs)
				}
			}
			if subs != 0 {
				return fmt.Sprintf("%d filters and subscriptions remain after all were removed or expired", subs)
			}
			if open != base {
				return fmt.Sprintf("%d goroutines were there before, %d remain: %v", base, open, s.Stuck)
			}
			return ""
		}()
		if bad != "" {
			at = append([]int{}, ch...)
			return false
		}
		key := cs.String()
		for _, f := range fs {
			key += fmt.Sprint(len(f.got), f.gone, f.first)
		}
		c.State(key)
		c.Validated(1)
		return true
	})
	return
}

func TestJ02(t *testing.T) {
	Run("J02", "bounded", func(c *Check) {
		sched.NoStmts, sched.DelayBound, sched.AutoTime = true, true, true
		l := newLab()
		total, complete := 0, true
		for _, cs := range j02Cases(c) {
			if c.Expired() || c.Violations() > 20 {
				complete = false
				break
			}
			for _, fresh := range []bool{false, true} {
				l.fresh = fresh
				var st sched.Stats
				bad, at := j02Run(c, l, cs, func(setup func(*sched.S), after func(*sched.S, []int) bool) {
					st = sched.Explore(cs.deviate, 20000, setup, after, c.Expired)
				})
				total += st.Schedules
				if bad != "" && !fresh {
					continue
				}
				c.Exec(cs.String())
				if bad != "" {
					c.Outcome("differs")
					c.Violate("J02|"+cs.String(), cs.String()+": "+bad, map[string]any{"case": cs.String(), "schedule": at}, func() string {
						b, _ := j02Run(c, l, cs, func(setup func(*sched.S), after func(*sched.S, []int) bool) {
							s, ch := sched.Run(at, 20000, false, setup)
							after(s, ch)
						})
						return b
					})
				} else {
					complete = complete && st.Complete
					c.Outcome("each event once")
				}
				break
			}
		}
		l.fresh = false
		c.Note("schedules", total)
		if !complete {
			c.Truncate("not every schedule within the bound was run")
		}
		c.Sample("case: " + j02Cases(c)[0].String())
	})
}
