// Package bank explores the token and bank layer.
package bank

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/holiman/uint256"

	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20_factory"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

var (
	u1   = Addr("user-1")
	u2   = Addr("user-2")
	con  = Addr("holder-contract")
	modT = common.BytesToAddress(authtypes.NewModuleAddress(transfertypes.ModuleName))
	modF = common.BytesToAddress(authtypes.NewModuleAddress(authtypes.FeeCollectorName))
	// a 32-byte chain address and its EVM identity
	longAcc  = sdk.AccAddress(append(bytes.Repeat([]byte{7}, 12), Addr("long-user").Bytes()...))
	longA    = common.BytesToAddress(longAcc)
	chain    = evmtypes.StdAddress
	maxU     = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	erc20ABI *abi.ABI
	facABI   *abi.ABI
)

func init() {
	var err error
	erc20ABI, err = erc20.Erc20MetaData.GetAbi()
	Must(err)
	facABI, err = erc20_factory.Erc20FactoryMetaData.GetAbi()
	Must(err)
}

// acc gives the chain address behind an EVM party.
func acc(a common.Address) sdk.AccAddress {
	if a == longA {
		return longAcc
	}
	return sdk.AccAddress(a.Bytes())
}

var partyNames = map[common.Address]string{u1: "u1", u2: "u2", con: "con", modT: "transfer-module", modF: "fee-collector", longA: "long", chain: "chain"}

func nm(a common.Address) string {
	if n, ok := partyNames[a]; ok {
		return n
	}
	return a.Hex()
}

// token is the model of one token contract.
type token struct {
	name    string
	addr    common.Address
	denom   string // its canonical denomination
	chain   bool   // created by the chain
	reg     bool   // in the token registry
	sudoMB  bool   // has the chain-only mint and burn entry points
	owner   common.Address
	bal     map[common.Address]*big.Int
	allow   map[[2]common.Address]*big.Int
	holders map[common.Address]bool
	supply  *big.Int
}

func (t *token) b(a common.Address) *big.Int {
	if v, ok := t.bal[a]; ok {
		return v
	}
	return new(big.Int)
}

func (t *token) al(o, s common.Address) *big.Int {
	if v, ok := t.allow[[2]common.Address{o, s}]; ok {
		return v
	}
	return new(big.Int)
}

// model is the reference state of the token and bank layer.
type model struct {
	toks    []*token
	enabled map[string]bool
	def     bool
}

func (m *model) clone() *model {
	n := &model{def: m.def, enabled: map[string]bool{}}
	for k, v := range m.enabled {
		n.enabled[k] = v
	}
	for _, t := range m.toks {
		x := *t
		x.bal, x.allow, x.holders = map[common.Address]*big.Int{}, map[[2]common.Address]*big.Int{}, map[common.Address]bool{}
		for k, v := range t.bal {
			x.bal[k] = v
		}
		for k, v := range t.allow {
			x.allow[k] = v
		}
		for k := range t.holders {
			x.holders[k] = true
		}
		n.toks = append(n.toks, &x)
	}
	return n
}

func (m *model) canon() string {
	var b strings.Builder
	for _, t := range m.toks {
		fmt.Fprintf(&b, "%s %v o=%s s=%s", t.denom, t.reg, nm(t.owner), t.supply)
		var l []string
		for k, v := range t.bal {
			if v.Sign() != 0 {
				l = append(l, nm(k)+"="+v.String())
			}
		}
		for k, v := range t.allow {
			if v.Sign() != 0 {
				l = append(l, nm(k[0])+">"+nm(k[1])+"="+v.String())
			}
		}
		for k := range t.holders {
			l = append(l, "h"+nm(k))
		}
		sort.Strings(l)
		fmt.Fprintf(&b, "[%s]\n", strings.Join(l, ","))
	}
	var e []string
	for k, v := range m.enabled {
		e = append(e, fmt.Sprintf("%s:%v", k, v))
	}
	sort.Strings(e)
	fmt.Fprintf(&b, "%v %v", m.def, e)
	return b.String()
}

func (m *model) byDenom(d string) *token {
	for _, t := range m.toks {
		if t.denom == d {
			return t
		}
	}
	return nil
}

func (m *model) byName(n string) *token {
	for _, t := range m.toks {
		if t.name == n {
			return t
		}
	}
	return nil
}

func isModule(a common.Address) bool { return a == modT || a == modF }
func blocked(a common.Address) bool  { return isModule(a) }

// rules of a token contract

func (t *token) move(from, to common.Address, amt *big.Int) bool {
	if t.b(from).Cmp(amt) < 0 {
		return false
	}
	t.bal[from] = new(big.Int).Sub(t.b(from), amt)
	t.bal[to] = new(big.Int).Add(t.b(to), amt)
	if t.reg {
		t.holders[to] = true
	}
	return true
}

func (t *token) mint(to common.Address, amt *big.Int) bool {
	s := new(big.Int).Add(t.supply, amt)
	if s.Cmp(maxU) > 0 || new(big.Int).Add(t.b(to), amt).Cmp(maxU) > 0 {
		return false
	}
	t.supply = s
	t.bal[to] = new(big.Int).Add(t.b(to), amt)
	if t.reg {
		t.holders[to] = true
	}
	return true
}

func (t *token) burn(from common.Address, amt *big.Int) bool {
	if t.b(from).Cmp(amt) < 0 {
		return false
	}
	t.bal[from] = new(big.Int).Sub(t.b(from), amt)
	t.supply = new(big.Int).Sub(t.supply, amt)
	return true
}

// call is the model of one token entry point.
func (t *token) call(caller common.Address, fn string, args ...any) bool {
	A := func(i int) common.Address { return args[i].(common.Address) }
	N := func(i int) *big.Int { return args[i].(*big.Int) }
	spend := func(o common.Address, n *big.Int) bool {
		if t.al(o, caller).Cmp(n) < 0 {
			return false
		}
		t.allow[[2]common.Address{o, caller}] = new(big.Int).Sub(t.al(o, caller), n)
		return true
	}
	switch fn {
	case "transfer":
		return !blocked(A(0)) && t.move(caller, A(0), N(1))
	case "approve":
		t.allow[[2]common.Address{caller, A(0)}] = N(1)
		return true
	case "transferFrom":
		return !blocked(A(1)) && spend(A(0), N(2)) && t.move(A(0), A(1), N(2))
	case "mint":
		return !blocked(A(0)) && t.owner == caller && t.mint(A(0), N(1))
	case "burn":
		return !isModule(caller) && t.burn(caller, N(0))
	case "burnFrom":
		return !isModule(A(0)) && spend(A(0), N(1)) && t.burn(A(0), N(1))
	case "sudoTransfer":
		return caller == chain && t.move(A(0), A(1), N(2))
	case "sudoMint":
		return caller == chain && t.sudoMB && t.mint(A(0), N(1))
	case "sudoBurn":
		return caller == chain && t.sudoMB && t.burn(A(0), N(1))
	case "transferOwnership":
		if t.owner != caller || A(0) == (common.Address{}) {
			return false
		}
		t.owner = A(0)
		return true
	}
	panic(HarnessFault(fn))
}

// lab is one worker's chain.
type lab struct {
	c        *Check
	w        *World
	base     sdk.Context
	m        *model
	parties  []common.Address
	fac      common.Address
	facNonce uint64
}

func (l *lab) evm(ctx sdk.Context, from, to common.Address, in []byte, v int64) ([]byte, error) {
	ret, _, err := l.w.K.EVMCall(ctx, from, to, in, uint256.NewInt(uint64(v)), nil)
	return ret, err
}

// msg routes a message to its handler, as a transaction does.
func (l *lab) msg(ctx sdk.Context, m sdk.Msg) error {
	h := l.w.App.MsgServiceRouter().Handler(m)
	if h == nil {
		return errors.New("no handler")
	}
	_, err := h(ctx, m)
	return err
}

func (l *lab) tok(ctx sdk.Context, from, to common.Address, fn string, args ...any) error {
	in, err := erc20ABI.Pack(fn, args...)
	Must(err)
	_, err = l.evm(ctx, from, to, in, 0)
	return err
}

func (l *lab) factoryToken(ctx sdk.Context, from common.Address, name string) (common.Address, error) {
	in, err := facABI.Pack("createERC20", name, name, uint8(6))
	Must(err)
	ret, err := l.evm(ctx, from, l.fac, in, 0)
	if err != nil {
		return common.Address{}, err
	}
	return common.BytesToAddress(ret), nil
}

func (l *lab) deploy(ctx sdk.Context, from common.Address, bin, name string) (common.Address, error) {
	args, err := erc20ABI.Pack("", name, name, uint8(6))
	Must(err)
	_, a, _, err := l.w.K.EVMCreate(ctx, from, append(common.FromHex(bin), args...), uint256.NewInt(0), nil)
	return a, err
}

func newTok(name string, a common.Address, denom string, chainOwned, reg bool, owner common.Address) *token {
	return &token{name: name, addr: a, denom: denom, chain: chainOwned, reg: reg, sudoMB: true, owner: owner, supply: new(big.Int),
		bal: map[common.Address]*big.Int{}, allow: map[[2]common.Address]*big.Int{}, holders: map[common.Address]bool{}}
}

func evmDenom(a common.Address) string { return "evm/" + a.Hex()[2:] }

// newLab makes the chain with five tokens: two of the chain, one of the factory, one accepted custom one and one that never registered.
func newLab(c *Check) *lab {
	w := NewWorld(WorldCfg{})
	return newLabOn(c, w, Branch(w.Base))
}

func newLabOn(c *Check, w *World, base sdk.Context) *lab {
	l := &lab{c: c, w: w, base: base, parties: []common.Address{u1, u2, con, longA, modT, modF}}
	l.base = Fresh(l.base, 1<<50)
	ctx := l.base
	var err error
	l.fac, err = w.K.GetERC20FactoryAddr(ctx)
	Must(err)
	for _, a := range []common.Address{u1, u2} {
		w.EnsureAcc(ctx, a)
	}
	w.SetCode(ctx, con, []byte{0})
	w.App.AccountKeeper.GetModuleAccount(ctx, transfertypes.ModuleName)
	w.App.AccountKeeper.GetModuleAccount(ctx, authtypes.FeeCollectorName)
	m := &model{enabled: map[string]bool{}, def: w.App.BankKeeper.GetParams(ctx).DefaultSendEnabled}
	// chain tokens
	Must(w.K.ERC20Keeper().MintCoins(ctx, acc(u1), Coins("100stake,50ufoo")))
	Must(w.K.ERC20Keeper().MintCoins(ctx, acc(u2), Coins("20ufoo")))
	for _, d := range []string{"stake", "ufoo"} {
		a, err := w.K.GetContractAddrByDenom(ctx, d)
		Must(err)
		m.toks = append(m.toks, newTok(d, a, d, true, true, chain))
	}
	m.toks[0].mint(u1, big.NewInt(100))
	m.toks[1].mint(u1, big.NewInt(50))
	m.toks[1].mint(u2, big.NewInt(20))
	fa, err := l.factoryToken(ctx, u1, "fac")
	Must(err)
	f := newTok("fac", fa, evmDenom(fa), false, true, u1)
	ca, err := l.deploy(ctx, u1, initia_erc20.InitiaErc20Bin, "cus")
	Must(err)
	cu := newTok("cus", ca, evmDenom(ca), false, true, u1)
	cu.sudoMB = false
	xa, err := l.deploy(ctx, u2, erc20.Erc20Bin, "unr")
	Must(err)
	x := newTok("unr", xa, evmDenom(xa), false, false, u2)
	m.toks = append(m.toks, f, cu, x)
	for _, g := range []struct {
		t  *token
		to common.Address
		n  int64
	}{{f, u1, 80}, {f, u2, 10}, {cu, u1, 40}, {x, u2, 30}} {
		Must(l.tok(ctx, g.t.owner, g.t.addr, "mint", g.to, big.NewInt(g.n)))
		g.t.mint(g.to, big.NewInt(g.n))
	}
	for k, v := range partyNames {
		_ = v
		_ = k
	}
	l.m = m
	return l
}

// rows reads values from the token contracts themselves, through one contract that calls them all.
func (l *lab) rows(ctx sdk.Context, q [][2][]byte) ([]*big.Int, error) {
	a := NewAsm()
	for i, x := range q {
		in := x[1]
		for o := 0; o < len(in); o += 32 {
			w := make([]byte, 32)
			copy(w, in[o:])
			a.PushB(w).Push(uint64(o)).Op(0x52)
		}
		out := uint64(256 + 32*i)
		a.Push(0).Push(out).Op(0x52)
		a.Push(32).Push(out).Push(uint64(len(in))).Push(0).PushB(x[0]).Op(0x5a).Op(0xfa)
		ok := NewAsm()
		_ = ok
		// failed reads answer 2^256-7
		a.Push(1).Op(0x14)
		lab := fmt.Sprintf("k%d", i)
		a.PushLabel(lab).Op(0x57)
		bad := new(big.Int).Sub(maxU, big.NewInt(6))
		a.PushB(bad.Bytes()).Push(out).Op(0x52)
		a.Label(lab)
	}
	a.Push(uint64(32 * len(q))).Push(256).Op(0xf3)
	cc := Fresh(Branch(ctx), 1<<40)
	rd := Addr("reader")
	l.w.SetCode(cc, rd, a.Bytes())
	ret, err := l.w.K.EVMStaticCall(cc, evmtypes.NullAddress, rd, nil, nil)
	if err != nil {
		return nil, err
	}
	var out []*big.Int
	for i := range q {
		out = append(out, new(big.Int).SetBytes(ret[32*i:32*i+32]))
	}
	return out, nil
}

func pack(fn string, args ...any) []byte {
	b, err := erc20ABI.Pack(fn, args...)
	Must(err)
	return b
}

// contracts compares every token contract's own state with the model.
func (l *lab) contracts(ctx sdk.Context, m *model) string {
	var q [][2][]byte
	var want []*big.Int
	var what []string
	add := func(t *token, n string, w *big.Int, fn string, args ...any) {
		q = append(q, [2][]byte{t.addr.Bytes(), pack(fn, args...)})
		want = append(want, w)
		what = append(what, t.name+" "+n)
	}
	for _, t := range m.toks {
		add(t, "supply", t.supply, "totalSupply")
		add(t, "owner", new(big.Int).SetBytes(t.owner.Bytes()), "owner")
		sum := new(big.Int)
		for _, p := range append([]common.Address{chain, t.addr, l.fac}, l.parties...) {
			add(t, "balance of "+nm(p), t.b(p), "balanceOf", p)
			sum.Add(sum, t.b(p))
		}
		if sum.Cmp(t.supply) != 0 {
			panic(HarnessFault("model supply"))
		}
		for k, v := range t.allow {
			add(t, "allowance "+nm(k[0])+">"+nm(k[1]), v, "allowance", k[0], k[1])
		}
	}
	got, err := l.rows(ctx, q)
	if err != nil {
		return "reading the contracts: " + err.Error()
	}
	for i := range got {
		if got[i].Cmp(want[i]) != 0 {
			return fmt.Sprintf("%s is %s, expected %s", what[i], got[i], want[i])
		}
	}
	return ""
}

// sum checks conservation on the real chain alone: every registered holder's balance adds up to the supply.
func (l *lab) sum(ctx sdk.Context, m *model) string {
	for _, t := range m.toks {
		if !t.reg {
			continue
		}
		got := map[common.Address]bool{}
		it, err := l.w.K.ERC20Stores.Iterate(ctx, nil)
		Must(err)
		keys, err := it.Keys()
		Must(err)
		for _, k := range keys {
			if common.BytesToAddress(k.K2()) == t.addr {
				got[common.BytesToAddress(k.K1())] = true
			}
		}
		for h := range t.holders {
			if !got[h] {
				return fmt.Sprintf("%s holds %s but is not in the registry", nm(h), t.name)
			}
		}
		for h := range got {
			if !t.holders[h] {
				return fmt.Sprintf("%s is registered for %s without ever receiving it", nm(h), t.name)
			}
		}
	}
	return ""
}

// op builders

type op = MOp[*model]

func mop(name string, mod func(m *model) bool, real func(ctx sdk.Context) error) op {
	return op{Name: name, Model: func(m *model) (*model, bool) { n := m.clone(); ok := mod(n); return n, ok }, Real: real}
}

// opTok is a call of a token entry point by a party.
func (l *lab) opTok(t *token, caller common.Address, fn string, args ...any) op {
	var s []string
	for _, a := range args {
		switch v := a.(type) {
		case common.Address:
			s = append(s, nm(v))
		default:
			s = append(s, fmt.Sprint(v))
		}
	}
	n := t.name
	return mop(fmt.Sprintf("%s.%s(%s) by %s", n, fn, strings.Join(s, ","), nm(caller)), func(m *model) bool {
		return m.byName(n).call(caller, fn, args...)
	}, func(ctx sdk.Context) error {
		return l.tok(ctx, caller, t.addr, fn, args...)
	})
}

// opNative is a plain value transfer of the fee token.
func (l *lab) opNative(from, to common.Address, n int64) op {
	return mop(fmt.Sprintf("value %d %s>%s", n, nm(from), nm(to)), func(m *model) bool {
		return n == 0 || m.toks[0].call(from, "transfer", to, big.NewInt(n))
	}, func(ctx sdk.Context) error {
		_, err := l.evm(ctx, from, to, nil, n)
		return err
	})
}

func coinsString(cs sdk.Coins, m *model) string {
	s := cs.String()
	for _, t := range m.toks {
		s = strings.ReplaceAll(s, t.denom, t.name)
	}
	return s
}

func validCoins(cs sdk.Coins) bool {
	for i, c := range cs {
		if c.Amount.IsNil() || !c.Amount.IsPositive() || sdk.ValidateDenom(c.Denom) != nil || i > 0 && cs[i-1].Denom >= c.Denom {
			return false
		}
	}
	return len(cs) > 0
}

// moveCoins is the bank's transfer.
func (m *model) moveCoins(from, to common.Address, cs sdk.Coins) bool {
	for _, c := range cs {
		t := m.byDenom(c.Denom)
		if t == nil || !t.move(from, to, c.Amount.BigInt()) {
			return false
		}
	}
	return true
}

func (m *model) sendable(d string) bool {
	if v, ok := m.enabled[d]; ok {
		return v
	}
	return m.def
}

// opSend is a bank send message.
func (l *lab) opSend(from, to common.Address, cs sdk.Coins) op {
	return mop(fmt.Sprintf("send %s>%s %s", nm(from), nm(to), coinsString(cs, l.m)), func(m *model) bool {
		if !validCoins(cs) || blocked(to) {
			return false
		}
		for _, c := range cs {
			if !m.sendable(c.Denom) {
				return false
			}
		}
		return m.moveCoins(from, to, cs)
	}, func(ctx sdk.Context) error {
		return l.msg(ctx, &banktypes.MsgSend{FromAddress: acc(from).String(), ToAddress: acc(to).String(), Amount: cs})
	})
}

// opKeeper are the module routes of the bank keeper.
func (l *lab) opModule(kind string, from, to common.Address, cs sdk.Coins) op {
	bk := l.w.App.BankKeeper
	mods := map[common.Address]string{modT: transfertypes.ModuleName, modF: authtypes.FeeCollectorName}
	return mop(fmt.Sprintf("%s %s>%s %s", kind, nm(from), nm(to), coinsString(cs, l.m)), func(m *model) bool {
		switch kind {
		case "mod2acc":
			return !blocked(to) && m.moveCoins(from, to, cs)
		case "mint":
			for _, c := range cs {
				t := m.byDenom(c.Denom)
				if t == nil || !t.chain || !t.mint(from, c.Amount.BigInt()) {
					return false
				}
			}
			return true
		case "burn":
			for _, c := range cs {
				t := m.byDenom(c.Denom)
				if t == nil {
					return false
				}
				if !t.chain {
					// no right to burn: to the community pool, which is the fee collector
					if !t.move(from, modF, c.Amount.BigInt()) {
						return false
					}
				} else if !t.burn(from, c.Amount.BigInt()) {
					return false
				}
			}
			return true
		}
		return m.moveCoins(from, to, cs)
	}, func(ctx sdk.Context) error {
		switch kind {
		case "mod2acc":
			return bk.SendCoinsFromModuleToAccount(ctx, mods[from], acc(to), cs)
		case "acc2mod":
			return bk.SendCoinsFromAccountToModule(ctx, acc(from), mods[to], cs)
		case "mod2mod":
			return bk.SendCoinsFromModuleToModule(ctx, mods[from], mods[to], cs)
		case "keeper":
			return bk.SendCoins(ctx, acc(from), acc(to), cs)
		case "mint":
			return bk.MintCoins(ctx, mods[from], cs)
		case "burn":
			return bk.BurnCoins(ctx, mods[from], cs)
		}
		return errors.New("kind")
	})
}

func coins(m *model, kv ...any) sdk.Coins {
	var cs sdk.Coins
	for i := 0; i < len(kv); i += 2 {
		d := kv[i].(string)
		if t := m.byName(d); t != nil {
			d = t.denom
		}
		cs = append(cs, sdk.Coin{Denom: d, Amount: math.NewInt(int64(kv[i+1].(int)))})
	}
	return cs.Sort()
}

// sys adapts the lab to the explorer.
type sys struct {
	*lab
	ops     func(l *lab, m *model) []op
	observe func(l *lab, ctx sdk.Context, m *model) string
}

func (s sys) Base() (sdk.Context, *model) { return s.base, s.m }
func (s sys) Ops(m *model) []op           { return s.ops(s.lab, m) }
func (s sys) Canon(m *model) string       { return m.canon() }
func (s sys) Digest(ctx sdk.Context) string {
	return s.w.DigestStores(ctx, "capability", "oracle", "marketmap", "upgrade")
}
func (s sys) Observe(ctx sdk.Context, m *model) string {
	return s.observe(s.lab, ctx, m)
}
func (s sys) After(sdk.Context, string, error) string { return "" }
