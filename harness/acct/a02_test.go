package acct

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"

	"github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/x/evm/contracts/i_erc20_registry"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// entry is one account as the chain stores it.
type entry struct {
	kind   string
	num    uint64
	seq    uint64
	pubkey string
}

func (l *lab) accounts(ctx sdk.Context) (map[string]entry, string) {
	out := map[string]entry{}
	nums := map[uint64]string{}
	bad := ""
	l.w.App.AccountKeeper.IterateAccounts(ctx, func(a sdk.AccountI) bool {
		e := entry{kind: fmt.Sprintf("%T", a), num: a.GetAccountNumber(), seq: a.GetSequence()}
		if pk := a.GetPubKey(); pk != nil {
			e.pubkey = pk.String()
		}
		k := a.GetAddress().String()
		if o, dup := nums[e.num]; dup && bad == "" {
			bad = fmt.Sprintf("%s and %s share the account number %d", o, k, e.num)
		}
		nums[e.num] = k
		out[k] = e
		return false
	})
	for n, k := range nums {
		a, err := l.w.App.AccountKeeper.Accounts.Indexes.Number.MatchExact(ctx, n)
		if bad == "" && (err != nil || a.String() != k) {
			bad = fmt.Sprintf("account number %d leads to %v (%v), expected %s", n, a, err, k)
		}
	}
	next, err := l.w.App.AccountKeeper.AccountNumber.Peek(ctx)
	Must(err)
	for n, k := range nums {
		if n >= next && bad == "" {
			bad = fmt.Sprintf("%s has the account number %d, which is yet to be given out", k, n)
		}
	}
	return out, bad
}

// judge compares the accounts before and after a step.
func judge(pre, post map[string]entry, used map[uint64]string, gone map[string]bool) string {
	for k, a := range pre {
		b, ok := post[k]
		switch {
		case !ok && !gone[k]:
			return k + " vanished"
		case !ok:
		case b.num != a.num:
			return fmt.Sprintf("%s (%s) had the account number %d, now (%s) %d", k, a.kind, a.num, b.kind, b.num)
		case b.seq < a.seq:
			return fmt.Sprintf("the sequence of %s went from %d to %d", k, a.seq, b.seq)
		case a.pubkey != "" && a.pubkey != b.pubkey:
			return fmt.Sprintf("the public key of %s changed", k)
		}
	}
	for k, b := range post {
		if o, ok := used[b.num]; ok && o != k {
			return fmt.Sprintf("%s got the account number %d, which was %s's", k, b.num, o)
		}
	}
	return ""
}

type step struct {
	name string
	keep bool
	gone []common.Address // may be destroyed
	run  func(ctx sdk.Context) error
}

var (
	maker2   = Addr("acct-maker2")
	dieCode  = []byte{0x30, 0xff} // init code that destroys itself in favour of itself
	brokenIn = []byte{0xfe}
)

func (l *lab) create2(ctx sdk.Context, code []byte, v int64) error {
	_, _, err := l.w.K.EVMCall(ctx, whale.Addr, l.maker, code, uint256.NewInt(uint64(v)), nil)
	return err
}

func (l *lab) steps() []step {
	var o []step
	add := func(name string, run func(ctx sdk.Context) error) { o = append(o, step{name: name, run: run}) }
	addr := func(code []byte) common.Address {
		return crypto.CreateAddress2(l.maker, [32]byte{}, crypto.Keccak256(code))
	}
	zDie, zBad := addr(dieCode), addr(brokenIn)
	fresh := l.longs[3].tail
	send := func(to sdk.AccAddress) func(sdk.Context) error {
		return func(ctx sdk.Context) error {
			_, err := l.msg(ctx, &banktypes.MsgSend{FromAddress: whale.Acc().String(), ToAddress: to.String(), Amount: coin(5)})
			return err
		}
	}
	for n, a := range map[string]common.Address{"A": tailA, "Z": tailZ, "Zdie": zDie, "Zbad": zBad, "fresh": fresh} {
		add("send to "+n, send(a.Bytes()))
		if n == "A" || n == "Z" || n == "Zdie" {
			a := a
			add("value to "+n, func(ctx sdk.Context) error {
				_, _, err := l.w.K.EVMCall(ctx, whale.Addr, a, nil, uint256.NewInt(3), nil)
				return err
			})
		}
	}
	sort.Slice(o, func(i, j int) bool { return o[i].name < o[j].name })
	for _, i := range []int{0, 3, 5} {
		p := l.longs[i]
		add("send to long "+p.name, send(p.acc))
		add("long "+p.name+" calls", func(ctx sdk.Context) error {
			_, err := l.msg(ctx, &evmtypes.MsgCall{Sender: p.acc.String(), ContractAddr: rec.Hex(), Input: "0x", Value: math.ZeroInt()})
			return err
		})
		add("long "+p.name+" sends", func(ctx sdk.Context) error {
			_, err := l.msg(ctx, &banktypes.MsgSend{FromAddress: p.acc.String(), ToAddress: whale.Acc().String(), Amount: coin(1)})
			return err
		})
	}
	add("long F1 deploys", func(ctx sdk.Context) error {
		_, err := l.msg(ctx, &evmtypes.MsgCreate{Sender: l.longs[3].acc.String(), Code: hexutil.Encode(initCode), Value: math.ZeroInt()})
		return err
	})
	add("create Z", func(ctx sdk.Context) error { return l.create2(ctx, initCode, 0) })
	add("create Z with value", func(ctx sdk.Context) error { return l.create2(ctx, initCode, 2) })
	o = append(o, step{name: "create Zdie", gone: []common.Address{zDie}, run: func(ctx sdk.Context) error { return l.create2(ctx, dieCode, 1) }})
	add("create Zbad", func(ctx sdk.Context) error { return l.create2(ctx, brokenIn, 1) })
	key := func(k *Key, name string, msgs ...sdk.Msg) {
		o = append(o, step{name: name, keep: true, run: func(ctx sdk.Context) error {
			s, an := l.seq(ctx, k.Acc())
			d := l.w.DeliverOn(ctx, k.SignSDK(TxOpts{Msgs: msgs, Gas: 5_000_000, Fee: sdk.Coins{}, Seq: s, AccNum: an}))
			if d.Err != "" {
				return errors.New(d.Err)
			}
			return nil
		}})
	}
	sA := sdk.AccAddress(tailA.Bytes()).String()
	call := &evmtypes.MsgCall{Sender: sA, ContractAddr: rec.Hex(), Input: "0x", Value: math.ZeroInt()}
	bad := &evmtypes.MsgCall{Sender: sA, ContractAddr: rec.Hex(), Input: "0x", Value: math.NewInt(1 << 40)}
	mk := &evmtypes.MsgCreate{Sender: sA, Code: hexutil.Encode(initCode), Value: math.ZeroInt()}
	key(keyA, "A signs a call", call)
	key(keyA, "A signs a failing call", bad)
	key(keyA, "A signs a creation", mk)
	key(keyA, "A signs a creation and a failing call", mk, bad)
	key(keyA, "A signs a send", &banktypes.MsgSend{FromAddress: sA, ToAddress: sdk.AccAddress(fresh.Bytes()).String(), Amount: coin(1)})
	// holders made known by a token
	reg, err := i_erc20_registry.IErc20RegistryMetaData.GetAbi()
	Must(err)
	tk := Addr("acct-token")
	l.w.SetCode(l.base, tk, NewAsm().Op(0x36).Push(0).Push(0).Op(0x37).Push(0).Push(0).Op(0x36).Push(0).Push(0).PushAddr(common.HexToAddress("0xf2")).Op(0x5a, 0xf1).PushLabel("ok").Op(0x57).Push(0).Push(0).Op(0xfd).Label("ok").Op(0).Bytes())
	in, _ := reg.Pack("register_erc20")
	_, _, err = l.w.K.EVMCall(l.base, whale.Addr, tk, in, nil, nil)
	Must(err)
	hold := func(n string, a common.Address) {
		in, err := reg.Pack("register_erc20_store", a)
		Must(err)
		add("token registers "+n, func(ctx sdk.Context) error { _, _, err := l.w.K.EVMCall(ctx, whale.Addr, tk, in, nil, nil); return err })
	}
	hold("fresh", fresh)
	hold("Z", tailZ)
	hold("A", tailA)
	var names []string
	for n := range app.GetMaccPerms() {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		n := n
		a := common.BytesToAddress(authtypes.NewModuleAddress(n))
		hold("module "+n, a)
		add("value to module "+n, func(ctx sdk.Context) error {
			_, _, err := l.w.K.EVMCall(ctx, whale.Addr, a, nil, uint256.NewInt(3), nil)
			return err
		})
		add("send to module "+n, send(a.Bytes()))
	}
	_ = big.NewInt
	return o
}

// modules checks that no module account was taken over.
func (l *lab) modules(ctx sdk.Context) string {
	for n := range app.GetMaccPerms() {
		if l.w.App.AccountKeeper.GetAccount(l.base, authtypes.NewModuleAddress(n)) == nil {
			continue // the one that only tests use
		}
		cc := Branch(ctx)
		if p := Try(func() {
			if l.w.App.AccountKeeper.GetModuleAccount(cc, n) == nil {
				panic("no account")
			}
		}); p != "" {
			return fmt.Sprintf("the account of module %s is unusable: %.120s", n, p)
		}
	}
	return ""
}

func TestA02(t *testing.T) {
	Run("A02", "model_checking", func(c *Check) {
		depth := Pick(c, 3, 4)
		type alab struct {
			*lab
			st []step
		}
		mk := func(int) *alab { l := newLab(c); return &alab{l, l.steps()} }
		var one func(l *alab, ctx sdk.Context, s step, used map[uint64]string, gone map[string]bool) (sdk.Context, map[uint64]string, string)
		one = func(l *alab, ctx sdk.Context, s step, used map[uint64]string, gone map[string]bool) (sdk.Context, map[uint64]string, string) {
			cc := Branch(ctx)
			pre, _ := l.accounts(cc)
			tx, commit := cc.CacheContext()
			tx = Fresh(tx, 30_000_000)
			if s.keep {
				tx = cc
			}
			var err error
			if p := Try(func() { err = s.run(tx) }); p != "" {
				err = errors.New(p)
			}
			if err == nil && !s.keep {
				commit()
			}
			post, bad := l.accounts(cc)
			if bad != "" {
				return cc, nil, bad
			}
			for _, g := range s.gone {
				gone[sdk.AccAddress(g.Bytes()).String()] = true
			}
			if d := judge(pre, post, used, gone); d != "" {
				return cc, nil, d
			}
			u := map[uint64]string{}
			for k, v := range used {
				u[k] = v
			}
			for k, e := range post {
				u[e.num] = k
			}
			return cc, u, l.modules(cc)
		}
		replay := func(names []string) string {
			l := mk(-1)
			ctx := l.base
			used := map[uint64]string{}
			for _, n := range names {
				for _, s := range l.st {
					if s.name == n {
						var d string
						ctx, used, d = one(l, ctx, s, used, map[string]bool{})
						if d != "" {
							return d
						}
					}
				}
			}
			return ""
		}
		var visited, seen sync.Map
		n := len(mk(-1).st)
		Parallel(c, 0, mk, func(yield func([2]int) bool) {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if !yield([2]int{i, j}) {
						return
					}
				}
			}
		}, func(l *alab, it [2]int) {
			var walk func(ctx sdk.Context, tr []string, used map[uint64]string)
			do := func(ctx sdk.Context, s step, tr []string, used map[uint64]string) (sdk.Context, []string, map[uint64]string, bool) {
				t2 := append(append([]string{}, tr...), s.name)
				name := strings.Join(t2, " ; ")
				cc, u, d := one(l, ctx, s, used, map[string]bool{})
				if _, dup := seen.LoadOrStore(name, true); !dup {
					c.Exec(name)
					c.Trans(1)
					c.Validated(1)
					if d != "" {
						c.Violate("account", name+" => "+d, t2, func() string { return replay(t2) })
					}
				}
				return cc, t2, u, d == ""
			}
			walk = func(ctx sdk.Context, tr []string, used map[uint64]string) {
				rest := depth - len(tr)
				if rest == 0 || c.Expired() || c.Violations() > 30 {
					return
				}
				// the history of numbers is part of the state
				var h []string
				for k, v := range used {
					h = append(h, fmt.Sprint(k, v))
				}
				sort.Strings(h)
				k := l.Digest(ctx) + strings.Join(h, ",")
				c.State(k)
				if v, ok := visited.Load(k); ok && v.(int) >= rest {
					return
				}
				visited.Store(k, rest)
				for _, s := range l.st {
					if cc, t2, u, ok := do(ctx, s, tr, used); ok {
						walk(cc, t2, u)
					}
				}
			}
			cc, tr, u, ok := do(l.base, l.st[it[0]], nil, map[uint64]string{})
			if !ok {
				return
			}
			cc, tr, u, ok = do(cc, l.st[it[1]], tr, u)
			if ok {
				walk(cc, tr, u)
			}
		})
	})
}
