package index

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"testing"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	gethmath "github.com/ethereum/go-ethereum/common/math"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rpc"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	ethns "github.com/initia-labs/minievm/jsonrpc/namespaces/eth"

	. "github.com/initia-labs/minievm/verifmc/core"
	"github.com/initia-labs/minievm/verifmc/sched"
)

// j06Op is a block: prices in gwei, -1 leaves the base fee; a transaction is a tip and a number of logs.
type j06Op struct {
	price int64
	tips  []int64 // in gwei, in the order of the block
	kinds string  // p a contract that logs, n the nest, e a plain one; c a chain transaction
}

var j06Chains = [][]j06Op{
	{{3, nil, ""}, {-1, []int64{2}, "p"}, {-1, []int64{5, 0, 2}, "pne"}, {7, nil, ""}, {-1, nil, ""}, {-1, []int64{1, 1, 9}, "ncp"}, {0, nil, ""}, {-1, []int64{4}, "e"}, {11, nil, ""}, {2, nil, ""}},
	{{1, nil, ""}, {2, nil, ""}, {3, nil, ""}, {4, nil, ""}},
	{{5, nil, ""}, {-1, []int64{8, 6}, "ee"}},
}

func j06Lab(ops []j06Op) *lab {
	l := newLabOf(nil, true)
	gwei := int64(1_000_000_000)
	price := big.NewInt(0)
	for _, o := range ops {
		var txs []tx
		if o.price >= 0 {
			p, err := l.w.App.OPChildKeeper.GetParams(l.ctx())
			Must(err)
			price = big.NewInt(o.price * gwei)
			dec, err := l.w.K.ERC20Keeper().GetDecimals(Fresh(Branch(l.ctx()), 1<<40), FeeDenom)
			Must(err)
			// tokens a unit of gas costs
			d := math.LegacyNewDecFromBigInt(new(big.Int).Set(price))
			if dec > 18 {
				panic(HarnessFault("decimals of the fee token"))
			}
			p.MinGasPrices = sdk.NewDecCoins()
			if o.price > 0 {
				p.MinGasPrices = sdk.NewDecCoins(sdk.NewDecCoinFromDec(FeeDenom, d.QuoInt(math.NewIntWithDecimal(1, int(18-dec)))))
			}
			t := l.admin(opchildtypes.NewMsgUpdateParams(l.w.App.BankKeeper.GetAuthority(), &p))
			txs = append(txs, t)
		}
		for i, tip := range o.tips {
			if o.kinds[i] == 'c' {
				txs = append(txs, l.make("send"))
				continue
			}
			dst := map[byte]common.Address{'p': l.p, 'n': l.nest, 'e': eve}[o.kinds[i]]
			t := l.eth(ann, &dst, nil, 900000, func(d *coretypes.DynamicFeeTx) {
				d.GasTipCap = big.NewInt(tip * gwei)
				d.GasFeeCap = new(big.Int).Add(price, big.NewInt(20*gwei))
			})
			t.op, t.runs, t.ok = "fee", true, true
			txs = append(txs, t)
		}
		if bad := l.play("fees", txs); bad != "" {
			panic(HarnessFault("J06 history: " + bad))
		}
	}
	return l
}

type j06Query struct {
	n    uint64
	last rpc.BlockNumber
	p    []float64
}

func (q j06Query) String() string { return fmt.Sprintf("%d blocks to %d at %v", q.n, q.last, q.p) }

type j06Answer struct {
	Oldest *hexutil.Big     `json:"oldestBlock"`
	Reward [][]*hexutil.Big `json:"reward"`
	Fee    []*hexutil.Big   `json:"baseFeePerGas"`
	Ratio  []float64        `json:"gasUsedRatio"`
}

func ask06(api *ethns.EthAPI, q j06Query) (a *j06Answer, err error) {
	r, err := api.FeeHistory(gethmath.HexOrDecimal64(q.n), q.last, q.p)
	if err != nil {
		return nil, err
	}
	bz, err := json.Marshal(r)
	Must(err)
	a = &j06Answer{}
	Must(json.Unmarshal(bz, a))
	return
}

// rewards are those of a block's transactions at the percentiles of the gas.
func (l *lab) rewards(b *block, p []float64, whole uint64) (out []*big.Int) {
	type one struct {
		gas uint64
		tip *big.Int
	}
	var list []one
	for _, d := range b.list {
		tip := new(big.Int).Sub(d.eth.GasFeeCap(), b.header.BaseFee)
		if tip.Cmp(d.eth.GasTipCap()) > 0 {
			tip.Set(d.eth.GasTipCap())
		}
		list = append(list, one{d.gas, tip})
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].tip.Cmp(list[j].tip) < 0 })
	for _, x := range p {
		if len(list) == 0 {
			out = append(out, new(big.Int))
			continue
		}
		want, sum, i := uint64(float64(whole)*x/100), list[0].gas, 0
		for sum < want && i < len(list)-1 {
			i++
			sum += list[i].gas
		}
		out = append(out, list[i].tip)
	}
	return
}

func (l *lab) judge06(q j06Query, a *j06Answer, err error) string {
	head := l.w.App.LastBlockHeight()
	ok := len(q.p) <= 100
	for i, x := range q.p {
		ok = ok && x >= 0 && x <= 100 && (i == 0 || x > q.p[i-1])
	}
	last := int64(q.last)
	if last < 0 {
		last = head
	} else if last == 0 {
		last = 1
	}
	if q.n == 0 {
		if err == nil && (len(a.Fee) > 0 || len(a.Ratio) > 0 || len(a.Reward) > 0) {
			return "no blocks were asked for: " + text(a)
		}
		return ""
	}
	if !ok || last > head {
		if err == nil {
			return "it cannot be answered but is: " + text(a)
		}
		return ""
	}
	if err != nil {
		return err.Error()
	}
	first := last + 1 - int64(q.n)
	if q.n > uint64(last) {
		first = 1
	}
	n := int(last - first + 1)
	if a.Oldest == nil || a.Oldest.ToInt().Int64() != first {
		return fmt.Sprintf("the oldest block is %v instead of %d", a.Oldest, first)
	}
	if len(a.Fee) != n+1 || len(a.Ratio) != n || len(q.p) > 0 && len(a.Reward) != n || len(q.p) == 0 && len(a.Reward) > 0 {
		return fmt.Sprintf("%d base fees, %d gas ratios and %d rewards for %d blocks", len(a.Fee), len(a.Ratio), len(a.Reward), n)
	}
	for i := 0; i <= n; i++ {
		h := first + int64(i)
		want := l.fee()
		if b := l.blocks[h]; b != nil {
			want = b.header.BaseFee
			if b.fee != nil && want.Cmp(b.fee) != 0 {
				want = b.fee
			}
		}
		if a.Fee[i] == nil || a.Fee[i].ToInt().Cmp(want) != 0 {
			return fmt.Sprintf("the base fee of block %d is %v instead of %v", h, a.Fee[i], (*hexutil.Big)(want))
		}
		if i == n {
			break
		}
		b := l.blocks[h]
		if w := float64(b.header.GasUsed) / float64(b.header.GasLimit); a.Ratio[i] != w {
			return fmt.Sprintf("the gas ratio of block %d is %v instead of %v", h, a.Ratio[i], w)
		}
		if len(q.p) > 0 {
			gas := uint64(0)
			for _, d := range b.list {
				gas += d.gas
			}
			w1, w2 := l.rewards(b, q.p, b.header.GasUsed), l.rewards(b, q.p, gas)
			if len(a.Reward[i]) != len(q.p) {
				return fmt.Sprintf("%d rewards of block %d", len(a.Reward[i]), h)
			}
			for j := range w1 {
				if g := a.Reward[i][j]; g == nil || g.ToInt().Cmp(w1[j]) != 0 && g.ToInt().Cmp(w2[j]) != 0 {
					return fmt.Sprintf("the reward of block %d at %v is %v instead of %v", h, q.p[j], g, (*hexutil.Big)(w1[j]))
				}
			}
		}
	}
	return ""
}

func j06Queries(head int64) (out []j06Query) {
	many := make([]float64, 101)
	for i := range many {
		many[i] = float64(i) / 2
	}
	ps := [][]float64{nil, {0}, {50}, {100}, {0, 25, 50, 75, 100}, {10.5, 33, 99.9}, many[:100], {-1}, {101}, {50, 50}, {60, 40}, many}
	for i, p := range ps {
		for last := rpc.BlockNumber(-4); last <= rpc.BlockNumber(head)+2; last++ {
			for n := uint64(0); n <= uint64(head)+2; n++ {
				if i > 6 && n > 2 {
					break
				}
				out = append(out, j06Query{n, last, p})
			}
			if i < 5 {
				out = append(out, j06Query{1024, last, p}, j06Query{1 << 40, last, p}, j06Query{1<<64 - 1, last, p})
			}
		}
	}
	return
}

func TestJ06(t *testing.T) {
	Run("J06", "bounded", func(c *Check) {
		sched.DelayBound = true
		for ci, ops := range j06Chains {
			if c.Expired() {
				break
			}
			name := fmt.Sprint(ops)
			l := j06Lab(ops)
			head := l.w.App.LastBlockHeight()
			report := func(what, bad string, again func() string) {
				c.Outcome("differs")
				c.Violate("J06|"+what, fmt.Sprintf("blocks %s, %s: %s", name, what, bad), map[string]any{"chain": ci, "query": what}, again)
			}
			qs := j06Queries(head)
			alone := func(q j06Query) (bad string) {
				if p := Try(func() {
					a, err := ask06(l.eth1(l.backend()), q)
					bad = l.judge06(q, a, err)
				}); p != "" {
					return p
				}
				return
			}
			Parallel(c, 0, func(int) *ethns.EthAPI { return l.eth1(l.backend()) }, func(yield func(j06Query) bool) {
				for _, q := range qs {
					if !yield(q) {
						return
					}
				}
			}, func(api *ethns.EthAPI, q j06Query) {
				c.Exec(name + q.String())
				c.Trans(1)
				bad := alone(q)
				if bad == "" {
					// and from a node that has answered others before
					a, err := ask06(api, q)
					if bad = l.judge06(q, a, err); bad != "" {
						bad = "after other queries: " + bad
					}
				}
				if bad != "" {
					report(q.String(), bad, func() string {
						if s := alone(q); s != "" {
							return s
						}
						a, err := ask06(api, q)
						return l.judge06(q, a, err)
					})
					return
				}
				c.State(fmt.Sprintf("%d|%d|%d|%v", ci, q.n, q.last, q.p))
				c.Validated(1)
				c.Outcome("agrees")
			})
			api := l.eth1(l.backend())
			g, err := api.GasPrice()
			if err != nil || g.ToInt().Cmp(l.fee()) != 0 {
				report("gas price", fmt.Sprintf("it is %v, %v instead of %v", g, err, l.fee()), func() string { return "as before" })
			}
			// what one query leaves behind must not change the next one's answer
			var pair []j06Query
			for _, p := range [][]float64{nil, {50}, {0, 100}} {
				for _, n := range []uint64{1, 3} {
					for _, last := range []rpc.BlockNumber{-2, rpc.BlockNumber(head - 1), 3} {
						pair = append(pair, j06Query{n, last, p})
					}
				}
			}
			if ci > 0 && !c.Thorough() {
				pair = pair[:6]
			}
			for _, x := range pair {
				for _, y := range pair {
					run := func() string {
						api := l.eth1(l.backend())
						_, _ = ask06(api, x)
						a, err := ask06(api, y)
						return l.judge06(y, a, err)
					}
					c.Exec(name + x.String() + y.String())
					if bad := run(); bad != "" {
						report(x.String()+" then "+y.String(), bad, run)
					}
				}
			}
			// the fetchers run side by side: all their schedules
			for _, q := range []j06Query{{2, -2, nil}, {3, -2, []float64{50}}, {5, rpc.BlockNumber(head - 1), nil}, {6, -2, []float64{0, 100}}} {
				q := q
				var bad string
				run := func(s *sched.S) {
					bad = "it never answers"
					b := l.backend()
					sched.Go("query", func() {
						a, err := ask06(l.eth1(b), q)
						bad = l.judge06(q, a, err)
					})
				}
				var at []int
				st := sched.Explore(Pick(c, 2, 3), 20000, run, func(s *sched.S, ch []int) bool {
					if bad == "" && len(s.Panics) > 0 {
						bad = s.Panics[0]
					}
					if bad != "" {
						at = ch
					}
					return bad == ""
				}, c.Expired)
				c.Trans(st.Steps)
				for i := 0; i < st.Schedules; i++ {
					c.Exec(fmt.Sprintf("%d %s schedule %d", ci, q, i))
				}
				if at != nil {
					report(fmt.Sprintf("schedule of %s", q), fmt.Sprintf("in schedule %v: %s", at, bad), func() string { sched.Run(at, 20000, false, run); return bad })
				} else if !st.Complete {
					c.Truncate("schedules")
				}
			}
			// a node asked before and after each block
			if ci == 0 {
				continue
			}
			grow := func() string {
				l := j06Lab(ops[:1])
				api := l.eth1(l.backend())
				for _, o := range []string{"plain", "send", "p", "gap"} {
					for _, q := range []j06Query{{2, -2, nil}, {2, -1, []float64{50}}, {9, -2, []float64{50}}, {1, rpc.BlockNumber(l.w.App.LastBlockHeight() + 1), nil}} {
						a, err := ask06(api, q)
						if bad := l.judge06(q, a, err); bad != "" {
							return bad
						}
					}
					t := l.make(o)
					if o == "plain" || o == "p" {
						continue
					}
					if bad := l.play(o, []tx{t}); bad != "" {
						return "harness: " + bad
					}
				}
				return ""
			}
			if bad := grow(); bad != "" {
				report("asked between blocks", bad, grow)
			}
		}
		c.Sample("3 blocks to latest at [50], all schedules of the fetchers")
	})
}
