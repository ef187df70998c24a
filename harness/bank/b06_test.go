package bank

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"testing"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"

	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	"github.com/initia-labs/minievm/x/evm/contracts/i_erc20_registry"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// regModel is the reference token registry.
type regModel struct {
	allow    bool
	list     []common.Address
	reg      map[common.Address]bool
	stores   map[[2]common.Address]bool // holder, token
	accounts map[common.Address]bool    // holders with an account
	made     int                        // factory tokens
	deployed map[string]bool
}

func (m *regModel) clone() *regModel {
	n := *m
	n.list = append([]common.Address{}, m.list...)
	n.reg, n.stores, n.accounts, n.deployed = map[common.Address]bool{}, map[[2]common.Address]bool{}, map[common.Address]bool{}, map[string]bool{}
	for k := range m.reg {
		n.reg[k] = true
	}
	for k := range m.stores {
		n.stores[k] = true
	}
	for k := range m.accounts {
		n.accounts[k] = true
	}
	for k := range m.deployed {
		n.deployed[k] = true
	}
	return &n
}

func (m *regModel) canon() string {
	var l []string
	for k := range m.reg {
		l = append(l, k.Hex())
	}
	for k := range m.stores {
		l = append(l, k[0].Hex()+k[1].Hex())
	}
	for k := range m.accounts {
		l = append(l, "a"+k.Hex())
	}
	for k := range m.deployed {
		l = append(l, k)
	}
	sort.Strings(l)
	return fmt.Sprint(m.allow, m.list, m.made, l)
}

func (m *regModel) register(c common.Address) bool {
	if !m.allow {
		return false
	}
	if m.reg[c] {
		return true
	}
	if len(m.list) > 0 {
		ok := false
		for _, a := range m.list {
			ok = ok || a == c
		}
		if !ok {
			return false
		}
	}
	m.reg[c] = true
	return true
}

func (m *regModel) store(holder, c common.Address) {
	if m.reg[c] {
		m.stores[[2]common.Address{holder, c}] = true
		m.accounts[holder] = true
	}
}

type regLab struct {
	*lab
	abi    *abi.ABI
	rm     *regModel
	f1, f2 common.Address
	h1, h2 common.Address // holders without an account
	fac0   uint64
	other  map[string]bool // registry entries of the chain's own tokens
	cust   [2]common.Address
	raw    common.Address
}

var regAddr = common.HexToAddress("0xf2")

// forwarder: mode byte, target, payload.
// modes: 0 call, 1 call and ignore failure, 2 delegatecall, 3 staticcall, 4 call then revert, 5 delegatecall and ignore failure
func forwarderCode() []byte {
	a := NewAsm()
	a.Push(21).Op(0x36, 0x03).Push(21).Push(0).Op(0x37) // calldatacopy(0, 21, size-21)
	a.Push(0).Op(0x35).Push(0).Op(0x1a)                 // mode
	for i := 1; i <= 5; i++ {
		a.Op(0x80).Push(uint64(i)).Op(0x14).PushLabel(fmt.Sprintf("m%d", i)).Op(0x57)
	}
	args := func(val bool) {
		a.Push(0).Push(0).Push(21).Op(0x36, 0x03).Push(0)
		if val {
			a.Push(0)
		}
		a.Push(1).Op(0x35).Push(96).Op(0x1c, 0x5a)
	}
	ret := func(swallow bool) {
		if swallow {
			a.Op(0x50)
		} else {
			a.Op(0x15).PushLabel("fail").Op(0x57)
		}
		a.Op(0x3d).Push(0).Push(0).Op(0x3e, 0x3d).Push(0).Op(0xf3)
	}
	args(true)
	a.Op(0xf1)
	ret(false)
	a.Label("m1")
	args(true)
	a.Op(0xf1)
	ret(true)
	a.Label("m2")
	args(false)
	a.Op(0xf4)
	ret(false)
	a.Label("m3")
	args(false)
	a.Op(0xfa)
	ret(false)
	a.Label("m4")
	args(true)
	a.Op(0xf1).Push(0).Push(0).Op(0xfd)
	a.Label("m5")
	args(false)
	a.Op(0xf4)
	ret(true)
	a.Label("fail").Push(0).Push(0).Op(0xfd)
	return a.Bytes()
}

func fwd(mode byte, to common.Address, in []byte) []byte {
	return append(append([]byte{mode}, to.Bytes()...), in...)
}

func newRegLab(c *Check) *regLab {
	l := &regLab{lab: newLab(c)}
	var err error
	l.abi, err = i_erc20_registry.IErc20RegistryMetaData.GetAbi()
	Must(err)
	l.f1, l.f2, l.h1, l.h2 = Addr("forwarder-1"), Addr("forwarder-2"), Addr("fresh-holder-1"), Addr("fresh-holder-2")
	partyNames[l.f1], partyNames[l.f2], partyNames[l.h1], partyNames[l.h2] = "f1", "f2", "h1", "h2"
	ctx := l.base
	l.w.SetCode(ctx, l.f1, forwarderCode())
	l.w.SetCode(ctx, l.f2, forwarderCode())
	l.fac0, err = l.w.App.AccountKeeper.GetSequence(ctx, l.fac.Bytes())
	Must(err)
	args, err := erc20ABI.Pack("", "t", "t", uint8(6))
	Must(err)
	for i := range l.cust {
		l.cust[i] = crypto.CreateAddress2(u1, uint256.NewInt(uint64(i)).Bytes32(), crypto.Keccak256(append(common.FromHex(initia_erc20.InitiaErc20Bin), args...)))
	}
	l.raw = crypto.CreateAddress2(u1, uint256.NewInt(7).Bytes32(), crypto.Keccak256(append(common.FromHex(erc20.Erc20Bin), args...)))
	p, err := l.w.K.Params.Get(ctx)
	Must(err)
	if !p.AllowCustomERC20 || len(p.AllowedCustomERC20s) != 0 {
		panic(HarnessFault("initial settings"))
	}
	l.rm = &regModel{allow: true, reg: map[common.Address]bool{}, stores: map[[2]common.Address]bool{}, accounts: map[common.Address]bool{}, deployed: map[string]bool{}}
	reg, stores := l.registry(ctx)
	for k := range reg {
		l.rm.reg[k] = true
	}
	for k := range stores {
		l.rm.stores[k] = true
	}
	l.rm.accounts[u2] = true
	return l
}

// registry reads the two lists.
func (l *regLab) registry(ctx sdk.Context) (map[common.Address]bool, map[[2]common.Address]bool) {
	reg, stores := map[common.Address]bool{}, map[[2]common.Address]bool{}
	it, err := l.w.K.ERC20s.Iterate(ctx, nil)
	Must(err)
	ks, err := it.Keys()
	Must(err)
	for _, k := range ks {
		reg[common.BytesToAddress(k)] = true
	}
	it2, err := l.w.K.ERC20Stores.Iterate(ctx, nil)
	Must(err)
	k2, err := it2.Keys()
	Must(err)
	for _, k := range k2 {
		stores[[2]common.Address{common.BytesToAddress(k.K1()), common.BytesToAddress(k.K2())}] = true
	}
	return reg, stores
}

func (l *regLab) made(i int) common.Address { return crypto.CreateAddress(l.fac, l.fac0+uint64(i)) }

func (l *regLab) Base() (sdk.Context, *regModel) { return l.base, l.rm }
func (l *regLab) Canon(m *regModel) string       { return m.canon() }
func (l *regLab) Digest(ctx sdk.Context) string {
	return l.w.DigestStores(ctx, "capability", "oracle", "marketmap", "upgrade")
}
func (l *regLab) After(sdk.Context, string, error) string { return "" }

func (l *regLab) Observe(ctx sdk.Context, m *regModel) string {
	reg, stores := l.registry(ctx)
	name := func(a common.Address) string {
		for i := 0; i < m.made+1; i++ {
			if a == l.made(i) {
				return fmt.Sprintf("made%d", i)
			}
		}
		for i := range l.cust {
			if a == l.cust[i] {
				return fmt.Sprintf("custom%d", i)
			}
		}
		return nm(a)
	}
	for k := range reg {
		if !m.reg[k] {
			return name(k) + " is a registered token without having been accepted"
		}
	}
	for k := range m.reg {
		if !reg[k] {
			return name(k) + " was accepted but is not registered"
		}
	}
	for k := range stores {
		if !m.stores[k] {
			return name(k[0]) + " is a registered holder of " + name(k[1]) + " without reason"
		}
	}
	for k := range m.stores {
		if !stores[k] {
			return name(k[0]) + " is missing among the holders of " + name(k[1])
		}
	}
	for _, h := range []common.Address{l.h1, l.h2} {
		if l.w.App.AccountKeeper.HasAccount(ctx, h.Bytes()) != m.accounts[h] {
			return fmt.Sprintf("account of %s exists=%v", name(h), !m.accounts[h])
		}
	}
	// every registered token appears exactly once in the listings
	cc := Branch(ctx).WithGasMeter(storetypes.NewInfiniteGasMeter())
	ek := l.w.K.ERC20Keeper()
	seen := map[string]int{}
	Must(ek.IterateSupply(cc, func(c sdk.Coin) (bool, error) { seen[c.Denom]++; return false, nil }))
	cs, _, err := ek.GetPaginatedSupply(cc, &query.PageRequest{Limit: 1000})
	Must(err)
	for _, c := range cs {
		seen[c.Denom]++
	}
	if len(seen) != len(m.reg) {
		return fmt.Sprintf("%d denominations listed, %d tokens registered", len(seen), len(m.reg))
	}
	for k := range m.reg {
		d, err := evmtypes.ContractAddrToDenom(cc, l.w.K, k)
		Must(err)
		if seen[d] != 2 {
			return fmt.Sprintf("%s is listed %d times", d, seen[d])
		}
		if ok, err := ek.HasSupply(cc, d); err != nil || !ok {
			return fmt.Sprintf("%s is registered but reported as unknown (%v)", d, err)
		}
	}
	for _, x := range []common.Address{l.f1, l.f2, u1, u2, l.raw, l.cust[0]} {
		if ok, _ := ek.HasSupply(cc, evmDenom(x)); ok != m.reg[x] {
			return fmt.Sprintf("%s is reported as a token: %v", nm(x), ok)
		}
	}
	// the registry's own answer to the token
	for _, f := range []common.Address{l.f1, l.f2} {
		for _, h := range []common.Address{l.h1, u2} {
			in, _ := l.abi.Pack("is_erc20_store_registered", h)
			ret, err := l.w.K.EVMStaticCall(cc, evmtypes.NullAddress, f, fwd(3, regAddr, in), nil)
			if err != nil || (new(big.Int).SetBytes(ret).Sign() != 0) != m.stores[[2]common.Address{h, f}] {
				return fmt.Sprintf("is %s a holder of %s: %x %v", nm(h), nm(f), ret, err)
			}
		}
	}
	return ""
}

type rop = MOp[*regModel]

func (l *regLab) Ops(m *regModel) []rop {
	in := func(fn string, args ...any) []byte { b, err := l.abi.Pack(fn, args...); Must(err); return b }
	var o []rop
	add := func(name string, mod func(m *regModel) bool, real func(ctx sdk.Context) error) {
		o = append(o, rop{Name: name, Model: func(m *regModel) (*regModel, bool) { n := m.clone(); ok := mod(n); return n, ok }, Real: real})
	}
	call := func(name string, from, to common.Address, data []byte, mod func(m *regModel) bool) {
		add(name, mod, func(ctx sdk.Context) error { _, err := l.evm(ctx, from, to, data, 0); return err })
	}
	reg := in("register_erc20")
	// settings
	for _, s := range []struct {
		n     string
		allow bool
		list  []common.Address
		str   []string
	}{
		{"open", true, nil, nil}, {"closed", false, nil, nil},
		{"listed f1", true, []common.Address{l.f1}, []string{l.f1.Hex()}},
		{"listed f2+custom0 (chain form)", true, []common.Address{l.f2, l.cust[0]}, []string{sdk.AccAddress(l.f2.Bytes()).String(), l.cust[0].Hex()}},
		{"closed with list", false, []common.Address{l.f1}, []string{l.f1.Hex()}},
	} {
		s := s
		add("settings "+s.n, func(m *regModel) bool { m.allow, m.list = s.allow, s.list; return true }, func(ctx sdk.Context) error {
			p, err := l.w.K.Params.Get(ctx)
			Must(err)
			p.AllowCustomERC20, p.AllowedCustomERC20s = s.allow, s.str
			return l.msg(ctx, &evmtypes.MsgUpdateParams{Authority: l.w.App.BankKeeper.GetAuthority(), Params: p})
		})
	}
	// registrations
	call("f1 registers", u1, l.f1, fwd(0, regAddr, reg), func(m *regModel) bool { return m.register(l.f1) })
	call("f2 registers, ignoring failure", u1, l.f2, fwd(1, regAddr, reg), func(m *regModel) bool { m.register(l.f2); return true })
	call("f1 registers by delegatecall", u1, l.f1, fwd(2, regAddr, reg), func(m *regModel) bool { return false })
	call("f1 registers by delegatecall, ignoring failure", u1, l.f1, fwd(5, regAddr, reg), func(m *regModel) bool { return true })
	call("f1 registers by staticcall", u1, l.f1, fwd(3, regAddr, reg), func(m *regModel) bool { return false })
	call("f1 in f2's code registers", u1, l.f1, fwd(2, l.f2, fwd(0, regAddr, reg)), func(m *regModel) bool { return m.register(l.f1) })
	call("f2 in f1's code registers, ignoring failure", u1, l.f2, fwd(5, l.f1, fwd(0, regAddr, reg)), func(m *regModel) bool { m.register(l.f2); return true })
	call("f1 registers and reverts inside f2", u1, l.f2, fwd(1, l.f1, fwd(4, regAddr, reg)), func(m *regModel) bool { return true })
	call("f1 calls f2 to register", u1, l.f1, fwd(0, l.f2, fwd(0, regAddr, reg)), func(m *regModel) bool { return m.register(l.f2) })
	call("user registers", u1, regAddr, reg, func(m *regModel) bool { return m.register(u1) })
	for _, who := range []common.Address{u1, l.f1, chain} {
		to, data := regAddr, in("register_erc20_from_factory", l.f2)
		if who == l.f1 {
			to, data = l.f1, fwd(0, regAddr, data)
		}
		from := who
		if who == l.f1 {
			from = u1
		}
		call("factory registration by "+nm(who), from, to, data, func(m *regModel) bool { return false })
	}
	call("f1 claims factory registration, ignoring failure", u1, l.f1, fwd(1, regAddr, in("register_erc20_from_factory", l.f1)), func(m *regModel) bool { return true })
	fin, err := facABI.Pack("createERC20", "n", "n", uint8(6))
	Must(err)
	make := func(m *regModel) bool { m.reg[l.made(m.made)] = true; m.made++; return true }
	call("factory makes a token for u1", u1, l.fac, fin, make)
	call("factory makes a token for f1", u1, l.f1, fwd(0, l.fac, fin), make)
	call("f1 makes a token in the factory's code", u1, l.f1, fwd(2, l.fac, fin), func(m *regModel) bool { return false })
	call("factory makes a token and f1 reverts inside f2", u1, l.f2, fwd(1, l.f1, fwd(4, l.fac, fin)), func(m *regModel) bool { return true })
	// real custom tokens register in their constructor
	args, err := erc20ABI.Pack("", "t", "t", uint8(6))
	Must(err)
	dep := func(i int) {
		key := fmt.Sprint("custom", i)
		add("u1 deploys "+key, func(m *regModel) bool {
			if m.deployed[key] || !m.register(l.cust[i]) {
				return false
			}
			m.deployed[key] = true
			return true
		}, func(ctx sdk.Context) error {
			_, a, _, err := l.w.K.EVMCreate2(ctx, u1, append(common.FromHex(initia_erc20.InitiaErc20Bin), args...), uint256.NewInt(0), uint64(i), nil)
			if err == nil && a != l.cust[i] {
				return errors.New("deployed elsewhere")
			}
			return err
		})
	}
	dep(0)
	dep(1)
	add("u1 deploys a plain token", func(m *regModel) bool {
		if m.deployed["raw"] {
			return false
		}
		m.deployed["raw"] = true
		return true
	}, func(ctx sdk.Context) error {
		_, _, _, err := l.w.K.EVMCreate2(ctx, u1, append(common.FromHex(erc20.Erc20Bin), args...), uint256.NewInt(0), 7, nil)
		return err
	})
	// holders
	for _, h := range []common.Address{l.h1, u2} {
		h := h
		call("f1 registers holder "+nm(h), u1, l.f1, fwd(0, regAddr, in("register_erc20_store", h)), func(m *regModel) bool { m.store(h, l.f1); return true })
	}
	call("user registers holder", u1, regAddr, in("register_erc20_store", l.h2), func(m *regModel) bool { m.store(l.h2, u1); return true })
	call("f2 registers holder by delegatecall", u1, l.f2, fwd(2, regAddr, in("register_erc20_store", l.h2)), func(m *regModel) bool { return false })
	call("f1 registers holder in f2's code", u1, l.f1, fwd(2, l.f2, fwd(0, regAddr, in("register_erc20_store", l.h2))), func(m *regModel) bool { m.store(l.h2, l.f1); return true })
	call("f1 registers holder and reverts inside f2", u1, l.f2, fwd(1, l.f1, fwd(4, regAddr, in("register_erc20_store", l.h1))), func(m *regModel) bool { return true })
	// holders through use
	for _, t := range []struct {
		k string
		a common.Address
	}{{"custom0", l.cust[0]}, {"raw", l.raw}} {
		t := t
		if m.deployed[t.k] {
			call(t.k+" mints to h1", u1, t.a, pack("mint", l.h1, big.NewInt(1)), func(m *regModel) bool { m.store(l.h1, t.a); return true })
		}
	}
	if m.made > 0 {
		call("made0 moves to h2 nothing", u1, l.made(0), pack("transfer", l.h2, big.NewInt(0)), func(m *regModel) bool { m.store(l.h2, l.made(0)); return true })
	}
	return o
}

func TestB06(t *testing.T) {
	Run("B06", "model_checking", func(c *Check) {
		WalkOps[*regModel](c, "registry", Pick(c, 4, 5), func(int) OpSys[*regModel] { return newRegLab(c) })
	})
}

func mustCall(_ []byte, err error) { Must(err) }
