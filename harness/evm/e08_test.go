package evm

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/gogoproto/proto"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"

	. "github.com/initia-labs/minievm/verifmc/core"
	"github.com/initia-labs/minievm/verifmc/sched"
	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	cosmosprecompile "github.com/initia-labs/minievm/x/evm/precompiles/cosmos"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

const orc = "/connect.oracle.v2.Query/"

type qry struct{ path, req string }

func (q qry) String() string { return strings.TrimPrefix(q.path, orc) + q.req }

var queries = []qry{
	{orc + "GetPrices", `{"currency_pair_ids":["BTC/USD","ETH/USD"]}`},
	{orc + "GetPrices", `{"currency_pair_ids":["ETH/USD"]}`},
	{orc + "GetPrices", `{"currency_pair_ids":[]}`},
	{orc + "GetPrices", `{}`},
	{orc + "GetPrices", `{"currency_pair_ids":["BTC/USD"],"bogus":1}`},
	{orc + "GetPrices", `{"currency_pair_ids":["BTC/USD",7]}`},
	{orc + "GetPrices", `{"currency_pair_ids":["BTC/USD"`},
	{orc + "GetPrice", `{"currency_pair":"BTC/USD"}`},
	{orc + "GetPrice", `{"currency_pair":"NEW/USD"}`},
	{orc + "GetPrice", `{"currency_pair":"XXX/USD"}`},
	{orc + "GetPrice", `{}`},
	{orc + "GetPrice", `{"currency_pair":"ETH/USD","bogus":1}`},
	{orc + "GetPrice", `not json`},
	{orc + "GetAllCurrencyPairs", `{}`},
	{orc + "GetAllCurrencyPairs", `{"x":1}`},
	{orc + "GetCurrencyPairMapping", `{}`},
	{"/cosmos.bank.v1beta1.Query/TotalSupply", `{}`},
	{"/no.such.Query/Path", `{}`},
	{"", ``},
}

func oracleWorld(w *World, ctx sdk.Context) {
	for i, p := range []string{"BTC", "ETH", "NEW"} {
		cp := connecttypes.CurrencyPair{Base: p, Quote: "USD"}
		if !w.App.OracleKeeper.HasCurrencyPair(ctx, cp) {
			Must(w.App.OracleKeeper.CreateCurrencyPair(ctx, cp))
		}
		if p != "NEW" {
			Must(w.App.OracleKeeper.SetPriceForCurrencyPair(ctx, cp, oracletypes.QuotePrice{Price: math.NewInt(int64(1000 + i)), BlockTimestamp: GenesisTime, BlockHeight: 2}))
		}
	}
}

type qlab struct {
	w    *World
	base sdk.Context
	abi  interface {
		Unpack(string, []byte) ([]any, error)
	}
}

func newQLab() *qlab {
	w := NewWorld(WorldCfg{})
	ctx := Branch(w.Base)
	oracleWorld(w, ctx)
	a, err := i_cosmos.ICosmosMetaData.GetAbi()
	Must(err)
	return &qlab{w: w, base: ctx, abi: a}
}

// ask performs one query through the EVM and describes everything observable about it.
func (l *qlab) ask(q qry) (string, bool) {
	ctx := Fresh(l.base, 10_000_000)
	cc := Branch(ctx)
	var ret []byte
	var err error
	if pan := Try(func() {
		ret, err = l.w.K.EVMStaticCall(cc, Caller, cosmosAddr, pack(true, "query_cosmos", q.path, q.req), nil)
	}); pan != "" {
		return "panic " + pan, false
	}
	if err != nil {
		return fmt.Sprintf("error %v gas=%d", err, cc.GasMeter().GasConsumed()), false
	}
	v, err := l.abi.Unpack("query_cosmos", ret)
	if err != nil {
		return "undecodable " + err.Error(), true
	}
	return fmt.Sprintf("ok %s gas=%d", v[0], cc.GasMeter().GasConsumed()), true
}

// yieldCodec is the chain's codec with a scheduling point at both ends of every conversion.
type yieldCodec struct{ codec.Codec }

func (y yieldCodec) Unmarshal(b []byte, m proto.Message) error {
	sched.Yield("unmarshal")
	err := y.Codec.Unmarshal(b, m)
	sched.Yield("unmarshalled")
	return err
}
func (y yieldCodec) Marshal(m proto.Message) ([]byte, error) {
	sched.Yield("marshal")
	b, err := y.Codec.Marshal(m)
	sched.Yield("marshalled")
	return b, err
}
func (y yieldCodec) UnmarshalJSON(b []byte, m proto.Message) error {
	sched.Yield("unmarshaljson")
	err := y.Codec.UnmarshalJSON(b, m)
	sched.Yield("unmarshalledjson")
	return err
}
func (y yieldCodec) MarshalJSON(m proto.Message) ([]byte, error) {
	sched.Yield("marshaljson")
	b, err := y.Codec.MarshalJSON(m)
	sched.Yield("marshalledjson")
	return b, err
}

type yieldRouter struct{ r *baseapp.GRPCQueryRouter }

func (y yieldRouter) Route(path string) baseapp.GRPCQueryHandler {
	h := y.r.Route(path)
	if h == nil {
		return nil
	}
	return func(ctx sdk.Context, req *abci.RequestQuery) (*abci.ResponseQuery, error) {
		sched.Yield("route")
		res, err := h(ctx, req)
		sched.Yield("routed")
		return res, err
	}
}

func TestE08(t *testing.T) {
	Run("E08", "model_checking", func(c *Check) {
		white := map[string]bool{orc + "GetPrices": true, orc + "GetPrice": true, orc + "GetAllCurrencyPairs": true}
		// the answer of a node that never served anything before
		fresh := map[int]string{}
		for i, q := range queries {
			l := newQLab()
			fresh[i], _ = l.ask(q)
			c.Sample(q.String() + " => " + fresh[i])
			c.State(fresh[i])
			c.Outcome(strings.SplitN(fresh[i], " ", 2)[0] + " " + q.path)
			if ok := strings.HasPrefix(fresh[i], "ok "); ok && !white[q.path] {
				c.Violate("path", q.String()+" => "+fresh[i], q.String(), nil)
			}
			if strings.HasPrefix(fresh[i], "panic") || strings.HasPrefix(fresh[i], "undecodable") {
				c.Violate("crash", q.String()+" => "+fresh[i], q.String(), nil)
			}
		}
		// the answers must say what the state says
		want := map[int][]string{
			0: {`"1000"`, `"1001"`}, 1: {`"1001"`}, 2: {`"prices":[]`}, 3: {`"prices":[]`}, 7: {`"1000"`}, 13: {"BTC", "ETH", "NEW"},
		}
		for i, subs := range want {
			for _, s := range subs {
				if !strings.HasPrefix(fresh[i], "ok ") || !strings.Contains(fresh[i], s) {
					c.Violate("answer", queries[i].String()+" => "+fresh[i]+" (expected it to hold "+s+")", i, nil)
				}
			}
		}
		for _, i := range []int{4, 5, 6, 9, 10, 11, 12, 14} {
			if strings.HasPrefix(fresh[i], "ok ") {
				c.Violate("malformed-accepted", queries[i].String()+" => "+fresh[i], i, nil)
			}
		}

		// 1. every path the node can route
		l := newQLab()
		routes := []string{}
		rv := reflect.ValueOf(l.w.App.GRPCQueryRouter()).Elem().FieldByName("routes")
		for _, k := range rv.MapKeys() {
			routes = append(routes, k.String())
		}
		sort.Strings(routes)
		if len(routes) < 50 {
			panic(HarnessFault("routes not enumerated"))
		}
		for _, r := range routes {
			c.Exec("route " + r)
			for _, req := range []string{`{}`, `{"currency_pair":"BTC/USD"}`} {
				c.Trans(1)
				s, ok := l.ask(qry{r, req})
				if strings.HasPrefix(s, "panic") {
					c.Violate("crash", r+" "+req+" => "+s, r, nil)
				}
				if ok && !white[r] {
					c.Violate("path", r+" "+req+" => "+s, r, func() string { x, _ := newQLab().ask(qry{r, req}); return x })
				}
			}
			for _, v := range []string{r + "/", r[1:], strings.ToUpper(r), r + " ", " " + r, strings.Replace(r, "/connect", "//connect", 1)} {
				if s, ok := l.ask(qry{v, `{}`}); ok && !white[v] {
					c.Violate("path", v+" => "+s, v, nil)
				}
			}
		}
		c.Note("routes", len(routes))

		// 2. histories
		type hist []int
		depth := Pick(c, 3, 4)
		judge := func(l *qlab, h hist) string {
			for i, k := range h {
				s, _ := l.ask(queries[k])
				c.Trans(1)
				if s != fresh[k] {
					return fmt.Sprintf("answer %d to %s differs from a fresh node's: %s / %s", i, queries[k], s, fresh[k])
				}
			}
			return ""
		}
		Parallel(c, 0, func(i int) *qlab { return newQLab() }, func(yield func(hist) bool) {
			Sequences(len(queries), 1, depth, func(seq []int) bool { return yield(append(hist{}, seq...)) })
		}, func(l *qlab, h hist) {
			c.Exec(fmt.Sprint(h))
			if d := judge(l, h); d != "" {
				c.Violate("history", d, fmt.Sprint(h), func() string { return judge(newQLab(), h) })
				*l = *newQLab()
				return
			}
			c.Validated(1)
		})

		// 3. concurrent queries: every interleaving of the conversion and routing steps
		set := []int{0, 1, 4, 6, 7, 11, 13, 16}
		mk := func() (cosmosprecompile.CosmosPrecompile, *qlab) {
			l := newQLab()
			pc, err := cosmosprecompile.NewCosmosPrecompile(yieldCodec{l.w.App.AppCodec()}, l.w.App.AccountKeeper.AddressCodec(), l.w.App.AccountKeeper, l.w.Bank, l.w.K, yieldRouter{l.w.App.GRPCQueryRouter()}, evmtypes.DefaultQueryCosmosWhitelist())
			Must(err)
			return pc, l
		}
		pc, ql := mk()
		run1 := func(k int) string {
			ctx := Branch(ql.base)
			con := pc.WithContext(context.Context(ctx)).(vm.ExtendedPrecompiledContract)
			bz, gas, err := con.ExtendedRun(vm.AccountRef(common.Address{9}), pack(true, "query_cosmos", queries[k].path, queries[k].req), 5_000_000, true)
			return fmt.Sprintf("%x|%d|%v", bz, gas, err != nil)
		}
		solo := map[int]string{}
		for _, k := range set {
			pc, ql = mk()
			solo[k] = run1(k)
		}
		pc, ql = mk()
		conc := func(ks []int, bound int) (bad string, badCh []int, st sched.Stats) {
			var got []string
			st = sched.Explore(bound, 10000, func(s *sched.S) {
				got = make([]string, len(ks))
				for i, k := range ks {
					sched.Go(fmt.Sprintf("q%d", i), func() { got[i] = run1(k) })
				}
			}, func(s *sched.S, ch []int) bool {
				for i, k := range ks {
					if len(s.Panics) > 0 {
						bad = s.Panics[0]
					} else if got[i] != solo[k] {
						bad = fmt.Sprintf("concurrent %s answered %s, alone %s", queries[k], got[i], solo[k])
					}
				}
				badCh = append([]int{}, ch...)
				return bad == ""
			}, c.Expired)
			return
		}
		total := 0
		try := func(ks []int, bound int) {
			bad, ch, st := conc(ks, bound)
			total += st.Schedules
			c.Trans(st.Steps)
			c.Exec(fmt.Sprint("concurrent", ks, bound))
			if !st.Complete && bad == "" {
				c.Truncate("concurrent queries")
			}
			if bad != "" {
				c.Violate("concurrent", bad, fmt.Sprint(ks, ch), func() string { pc, ql = mk(); b, _, _ := conc(ks, bound); return b })
				pc, ql = mk()
			}
		}
		for _, a := range set {
			for _, b := range set {
				try([]int{a, b}, Pick(c, 3, 6))
			}
		}
		for _, a := range []int{0, 1, 4, 7} {
			for _, b := range []int{1, 6, 7} {
				try([]int{a, b, 0}, Pick(c, 2, 4))
			}
		}
		c.Note("concurrent_schedules", total)
		c.Assume("a query's answer is compared with the answer of a freshly built node over the same state")
	})
}
