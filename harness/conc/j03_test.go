package conc

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"testing"

	abci "github.com/cometbft/cometbft/abci/types"
	rpcclient "github.com/cometbft/cometbft/rpc/client"
	ctypes "github.com/cometbft/cometbft/rpc/core/types"
	cmttypes "github.com/cometbft/cometbft/types"
	"github.com/cosmos/cosmos-sdk/client"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	"github.com/ethereum/go-ethereum/core"
	coretypes "github.com/ethereum/go-ethereum/core/types"

	"github.com/initia-labs/minievm/jsonrpc/backend"
	"github.com/initia-labs/minievm/jsonrpc/config"

	. "github.com/initia-labs/minievm/verifmc/core"
	"github.com/initia-labs/minievm/verifmc/sched"
)

// node stands in for the node behind the RPC client. Its mempool takes the
// transaction whose sequence is the sender's in the check state.
type node struct {
	client.CometRPC
	rpcclient.MempoolClient
	l        *lab
	refuse   map[string]bool
	names    map[string]string
	log      []string
	accepted []string
	txs      []cmttypes.Tx
	odd      string
}

func (n *node) BroadcastTxSync(_ context.Context, tx cmttypes.Tx) (*ctypes.ResultBroadcastTx, error) {
	sched.Yield("broadcast")
	name := n.names[string(tx)]
	if name == "" {
		n.odd = "a transaction was sent that nobody submitted"
	}
	d, err := n.l.w.App.TxDecode(tx)
	Must(err)
	sigs, err := d.(authsigning.Tx).GetSignaturesV2()
	Must(err)
	ctx := n.l.w.App.GetContextForCheckTx(nil)
	acc := n.l.w.App.AccountKeeper.GetAccount(ctx, sdk.AccAddress(sigs[0].PubKey.Address()))
	if acc.GetSequence() != sigs[0].Sequence {
		n.log = append(n.log, name+" out of turn")
		n.odd = fmt.Sprintf("%s was sent when it was the turn of %d", name, acc.GetSequence())
		return &ctypes.ResultBroadcastTx{Code: 32, Hash: tx.Hash()}, nil
	}
	if n.refuse[name] {
		n.log = append(n.log, name+" refused")
		sched.Yield("refused")
		return &ctypes.ResultBroadcastTx{Code: 5, Hash: tx.Hash()}, nil
	}
	Must(acc.SetSequence(acc.GetSequence() + 1))
	n.l.w.App.AccountKeeper.SetAccount(ctx, acc)
	n.log = append(n.log, name)
	n.accepted = append(n.accepted, name)
	n.txs = append(n.txs, tx)
	sched.Yield("accepted")
	return &ctypes.ResultBroadcastTx{Hash: tx.Hash()}, nil
}

func (n *node) page(limit *int) int {
	p := 30
	if limit != nil && *limit >= 1 {
		p = min(*limit, 100)
	}
	return min(p, len(n.txs))
}

func (n *node) UnconfirmedTxs(_ context.Context, limit *int) (*ctypes.ResultUnconfirmedTxs, error) {
	k := n.page(limit)
	return &ctypes.ResultUnconfirmedTxs{Count: k, Total: len(n.txs), Txs: n.txs[:k]}, nil
}

func (n *node) NumUnconfirmedTxs(context.Context) (*ctypes.ResultUnconfirmedTxs, error) {
	return &ctypes.ResultUnconfirmedTxs{Count: len(n.txs), Total: len(n.txs)}, nil
}

func (n *node) CheckTx(context.Context, cmttypes.Tx) (*ctypes.ResultCheckTx, error) {
	return nil, errors.New("not here")
}

func (n *node) ABCIInfo(context.Context) (*ctypes.ResultABCIInfo, error) {
	return &ctypes.ResultABCIInfo{Response: abci.ResponseInfo{}}, nil
}

type j03Tx struct {
	name  string
	who   *Key
	nonce uint64
	tx    *coretypes.Transaction
	bz    []byte
}

// j03Case has clients who submit: a0 is ann's transaction with nonce 0, a0'
// another one with that nonce.
type j03Case struct {
	clients [][]string
	refuse  []string
	deviate int
}

func (k j03Case) String() string {
	var s []string
	for _, x := range k.clients {
		s = append(s, strings.Join(x, ","))
	}
	return strings.Join(s, "|") + " refusing " + strings.Join(k.refuse, ",")
}

func j03Cases(c *Check) (out []j03Case) {
	par := func(s string, refuse ...string) {
		k := j03Case{refuse: refuse, deviate: Pick(c, 3, 4)}
		for _, x := range strings.Split(s, "|") {
			k.clients = append(k.clients, strings.Split(x, " "))
		}
		if len(k.clients) == 3 && !c.Thorough() {
			k.deviate = 2
		}
		out = append(out, k)
	}
	par("a0|a1")
	par("a1|a0")
	par("a0|a0")
	par("a0|a0'")
	par("a1 a2|a0")
	par("a2 a0|a1")
	par("a0 a1|a0' a1'")
	par("a0|b0")
	par("a0 b1|b0 a1")
	par("a1 b1|b0 a0")
	par("a2|a1|a0")
	par("a0|a1|a1'")
	par("a0|b0|a1 b1")
	par("a0|a1|b0", "a0")
	par("a1|a0", "a1")
	par("a1|a0 a0'", "a0")
	par("a2 a1|a0", "a1")
	par("a0 a1|a1' a2", "a1")
	if c.Thorough() {
		par("a0|b0|c0")
		par("a1 a3|a0 a2")
		par("a0 a1 a2|a2' a1' a0'")
		par("a0|a1|a2|a3")
	}
	// one client, every order
	al := []string{"a0", "a1", "a2", "a1'", "b0", "b1"}
	for n := 1; n <= Pick(c, 4, 5); n++ {
		idx := make([]int, n)
		for {
			var s []string
			for _, i := range idx {
				s = append(s, al[i])
			}
			out = append(out, j03Case{clients: [][]string{s}})
			if n <= 3 {
				for _, r := range [][]string{{"a0"}, {"a1"}} {
					out = append(out, j03Case{clients: [][]string{s}, refuse: r})
				}
			}
			i := n - 1
			for ; i >= 0; i-- {
				if idx[i]++; idx[i] < len(al) {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
	return
}

func (l *lab) j03Txs() map[string]*j03Tx {
	out := map[string]*j03Tx{}
	for who, k := range map[string]*Key{"a": ann, "b": ben, "c": cat} {
		for n := uint64(0); n < 4; n++ {
			for _, v := range []string{"", "'"} {
				to := Addr("conc-to" + v)
				t := &j03Tx{name: fmt.Sprintf("%s%d%s", who, n, v), who: k, nonce: n}
				t.tx = k.SignEth(&coretypes.DynamicFeeTx{ChainID: EthChainID(), Nonce: n, GasFeeCap: big.NewInt(0), GasTipCap: big.NewInt(0), Gas: 200000, To: &to, Value: big.NewInt(0)})
				x, err := l.w.EthToSDK(l.ctx, t.tx)
				Must(err)
				t.bz = l.w.Encode(x)
				out[t.name] = t
			}
		}
	}
	return out
}

type j03Call struct {
	t          *j03Tx
	err        error
	start, end uint64 // the sender's sequence when called and when it returned
	from, to   int    // what the node had logged
}

func (l *lab) seq(k *Key) uint64 {
	return l.w.App.AccountKeeper.GetAccount(l.w.App.GetContextForCheckTx(nil), k.Acc()).GetSequence()
}

func j03Run(c *Check, l *lab, all map[string]*j03Tx, cs j03Case, explore func(func(*sched.S), func(*sched.S, []int) bool)) (bad string, at []int) {
	var nd *node
	var b *backend.JSONRPCBackend
	var calls []*j03Call
	var odd string
	done := 0
	explore(func(s *sched.S) {
		ctx := l.w.App.GetContextForCheckTx(nil)
		for _, k := range []*Key{ann, ben, cat} {
			a := l.w.App.AccountKeeper.GetAccount(ctx, k.Acc())
			Must(a.SetSequence(0))
			l.w.App.AccountKeeper.SetAccount(ctx, a)
		}
		nd = &node{l: l, refuse: map[string]bool{}, names: map[string]string{}}
		for _, r := range cs.refuse {
			nd.refuse[r] = true
		}
		for n, t := range all {
			nd.names[string(t.bz)] = n
		}
		b = l.backend(client.Context{}.WithClient(nd).WithTxConfig(TxConfig()), config.DefaultJSONRPCConfig())
		calls, done, odd = nil, 0, ""
		for i, list := range cs.clients {
			list := list
			sched.Go(fmt.Sprintf("client-%d", i), func() {
				for _, n := range list {
					t := all[n]
					raw, err := t.tx.MarshalBinary()
					Must(err)
					k := &j03Call{t: t, start: l.seq(t.who), from: len(nd.log)}
					calls = append(calls, k)
					h, err := b.SendRawTransaction(raw)
					k.err, k.end, k.to = err, l.seq(t.who), len(nd.log)
					if err == nil && h != t.tx.Hash() {
						odd = "the hash given is another one"
					}
				}
				done++
			})
		}
	}, func(s *sched.S, ch []int) bool {
		c.Trans(s.Steps)
		bad = func() string {
			if len(s.Panics) > 0 {
				return "panic: " + s.Panics[0]
			}
			if len(s.Races) > 0 {
				return "race: " + s.Races[0]
			}
			if s.Spin || done != len(cs.clients) {
				return fmt.Sprintf("a call hangs: %v", s.Stuck)
			}
			if odd != "" {
				return odd
			}
			if nd.odd != "" {
				return nd.odd
			}
			return j03Judge(l, b, nd, calls, len(cs.clients))
		}()
		if bad != "" {
			at = append([]int{}, ch...)
			return false
		}
		c.State(fmt.Sprint(nd.log, l.seq(ann), l.seq(ben)))
		c.Validated(1)
		return true
	})
	return
}

func j03Judge(l *lab, b *backend.JSONRPCBackend, nd *node, calls []*j03Call, clients int) string {
	times := map[string]int{}
	for _, n := range nd.accepted {
		if times[n]++; times[n] > 1 {
			return n + " was accepted twice"
		}
	}
	submitted := map[*Key]map[uint64]map[string]bool{}
	for _, k := range calls {
		if submitted[k.t.who] == nil {
			submitted[k.t.who] = map[uint64]map[string]bool{}
		}
		if submitted[k.t.who][k.t.nonce] == nil {
			submitted[k.t.who][k.t.nonce] = map[string]bool{}
		}
		submitted[k.t.who][k.t.nonce][k.t.name] = true
	}
	count := func(name string) (n int) {
		for _, x := range nd.log {
			if x == name {
				n++
			}
		}
		return
	}
	for _, k := range calls {
		acc := times[k.t.name] > 0
		ref := count(k.t.name + " refused")
		same := 0 // calls for this very transaction
		for _, o := range calls {
			if o.t == k.t {
				same++
			}
		}
		if k.err != nil {
			stale := errors.Is(k.err, core.ErrNonceTooLow)
			switch {
			case stale && k.end <= k.t.nonce:
				return fmt.Sprintf("%s was called stale when the sequence was %d", k.t.name, k.end)
			case stale && acc && same == 1:
				return fmt.Sprintf("%s was called stale and yet accepted", k.t.name)
			case !stale && ref == 0:
				return fmt.Sprintf("%s failed though nothing was wrong with it: %v", k.t.name, k.err)
			}
			continue
		}
		if k.start > k.t.nonce {
			return fmt.Sprintf("%s was stale and taken", k.t.name)
		}
		// taken: it is accepted, held, replaced by another of its nonce, or refused later
		if !acc && len(submitted[k.t.who][k.t.nonce]) == 1 && k.t.nonce < l.seq(k.t.who) {
			return fmt.Sprintf("%s got lost", k.t.name)
		}
		if !acc && ref > 0 && same == 1 {
			// refused while the call was the one to forward it?
			own := false
			for _, x := range nd.log[k.from:k.to] {
				own = own || x == k.t.name+" refused"
			}
			if own && k.start == k.t.nonce && clients == 1 {
				return fmt.Sprintf("%s was refused and the caller not told", k.t.name)
			}
		}
	}
	held := 0
	for who, m := range submitted {
		seq := l.seq(who)
		for n, names := range m {
			if n == seq {
				// its turn: only what was refused stays behind
				refused := false
				for x := range names {
					refused = refused || count(x+" refused") > 0
				}
				if !refused {
					return fmt.Sprintf("%v waits though it is its turn", sorted(names))
				}
			}
			if n > seq {
				held++
			}
		}
	}
	st, err := b.TxPoolStatus()
	if err != nil {
		return "status: " + err.Error()
	}
	if int(st["queued"]) != held || int(st["pending"]) != len(nd.accepted) {
		return fmt.Sprintf("status says %d queued and %d pending instead of %d and %d", st["queued"], st["pending"], held, len(nd.accepted))
	}
	if n := reflect.ValueOf(b).Elem().FieldByName("accMuts"); n.IsValid() && n.Kind() == reflect.Map && n.Len() != 0 {
		return fmt.Sprintf("%d account locks remain", n.Len())
	}
	return ""
}

func sorted(m map[string]bool) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}

func TestJ03(t *testing.T) {
	Run("J03", "bounded", func(c *Check) {
		sched.NoStmts, sched.DelayBound = true, false
		l := newLab()
		if _, err := l.w.Block(l.w.App.LastBlockHeight() + 1); err != nil {
			panic(HarnessFault(err.Error()))
		}
		all := l.j03Txs()
		total, complete := 0, true
		for _, cs := range j03Cases(c) {
			if c.Expired() || c.Violations() > 20 {
				complete = false
				break
			}
			var st sched.Stats
			bad, at := j03Run(c, l, all, cs, func(setup func(*sched.S), after func(*sched.S, []int) bool) {
				st = sched.Explore(cs.deviate, 20000, setup, after, c.Expired)
			})
			total += st.Schedules
			c.Exec(cs.String())
			if bad == "" {
				complete = complete && st.Complete
				c.Outcome("in order")
				continue
			}
			c.Outcome("differs")
			c.Violate("J03|"+cs.String(), cs.String()+": "+bad, map[string]any{"case": cs.String(), "schedule": at}, func() string {
				b, _ := j03Run(c, l, all, cs, func(setup func(*sched.S), after func(*sched.S, []int) bool) {
					s, ch := sched.Run(at, 20000, false, setup)
					after(s, ch)
				})
				return b
			})
		}
		c.Note("schedules", total)
		if !complete {
			c.Truncate("not every schedule within the bound was run")
		}
		c.Sample("case: " + j03Cases(c)[0].String())
	})
}
