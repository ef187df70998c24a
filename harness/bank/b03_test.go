package bank

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"cosmossdk.io/collections"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// bindings checks that denominations and contracts are bound one to one, exactly as the model says.
func (l *lab) bindings(ctx sdk.Context, m *model) string {
	if d := l.contracts(ctx, m); d != "" {
		return d
	}
	k := l.w.K
	seen := map[string]common.Address{}
	it, err := k.ERC20ContractAddrsByDenom.Iterate(ctx, nil)
	Must(err)
	kv, err := it.KeyValues()
	Must(err)
	for _, x := range kv {
		seen[x.Key] = common.BytesToAddress(x.Value)
	}
	rev := map[common.Address]string{}
	it2, err := k.ERC20DenomsByContractAddr.Iterate(ctx, nil)
	Must(err)
	kv2, err := it2.KeyValues()
	Must(err)
	for _, x := range kv2 {
		rev[common.BytesToAddress(x.Key)] = x.Value
	}
	if len(seen) != len(rev) {
		return fmt.Sprintf("%d denominations bound to %d contracts", len(seen), len(rev))
	}
	for d, a := range seen {
		if rev[a] != d {
			return fmt.Sprintf("%s is bound to %s, which is bound to %q", d, a, rev[a])
		}
		t := m.byDenom(d)
		if t == nil || t.addr != a {
			return fmt.Sprintf("%s is bound to %s unexpectedly", d, a)
		}
	}
	for _, t := range m.toks {
		d, err := evmtypes.ContractAddrToDenom(ctx, k, t.addr)
		if err != nil || d != t.denom {
			return fmt.Sprintf("the denomination of %s is %s (%v), expected %s", t.name, d, err, t.denom)
		}
		a, err := evmtypes.DenomToContractAddr(ctx, k, t.denom)
		if err != nil || a != t.addr {
			return fmt.Sprintf("%s resolves to %s (%v), expected %s", t.denom, a, err, t.addr)
		}
		if t.chain {
			if _, ok := seen[t.denom]; !ok {
				return fmt.Sprintf("%s lost its binding", t.denom)
			}
		}
	}
	for _, d := range []string{"never", "ibc/00", "UFOO", "ufo", "ufooo", "Stake", "evm", "fac", "cus", ""} {
		if m.byDenom(d) != nil {
			continue
		}
		if a, err := evmtypes.DenomToContractAddr(ctx, k, d); err == nil || !errors.Is(err, collections.ErrNotFound) || a != (common.Address{}) {
			return fmt.Sprintf("%q, which was never created, resolves to %s (%v)", d, a, err)
		}
		if b, err := k.ERC20Keeper().GetBalance(ctx, acc(u1), d); err != nil || !b.IsZero() {
			return fmt.Sprintf("balance in %q, which was never created, is %s (%v)", d, b, err)
		}
		if h, err := k.ERC20Keeper().HasSupply(ctx, d); err != nil || h {
			return fmt.Sprintf("%q, which was never created, has a supply", d)
		}
	}
	return ""
}

func TestB03(t *testing.T) {
	Run("B03", "model_checking", func(c *Check) {
		news := []string{"ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "l2/0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", "uxyz", "fac", "factory/evm/x"}
		ops := func(l *lab, m *model) []op {
			facNonce := func(m *model) uint64 {
				n := l.facNonce
				for _, t := range m.toks[5:] {
					if strings.HasPrefix(t.name, "F") {
						n++
					}
				}
				return n
			}
			add := func(m *model, name, denom string, chainOwned bool, owner common.Address) *token {
				a := crypto.CreateAddress(l.fac, facNonce(m))
				if denom == "" {
					denom = evmDenom(a)
				}
				x := newTok(fmt.Sprintf("F%d%s", len(m.toks), name), a, denom, chainOwned, true, owner)
				m.toks = append(m.toks, x)
				return x
			}
			var o []op
			mint := func(cs ...any) {
				s := coins(m, cs...)
				o = append(o, mop("mint "+s.String(), func(m *model) bool {
					for _, x := range s {
						if strings.HasPrefix(x.Denom, "evm/") {
							return false
						}
						t := m.byDenom(x.Denom)
						if t == nil {
							t = add(m, "", x.Denom, true, chain)
						}
						if !t.mint(modT, x.Amount.BigInt()) {
							return false
						}
					}
					return true
				}, func(ctx sdk.Context) error { return l.w.App.BankKeeper.MintCoins(ctx, "transfer", s) }))
			}
			for _, d := range news {
				o = append(o, mop("mint "+d, func(m *model) bool {
					t := m.byDenom(d)
					if t == nil {
						t = add(m, "", d, true, chain)
					}
					return t.mint(modT, n(3))
				}, func(ctx sdk.Context) error {
					return l.w.App.BankKeeper.MintCoins(ctx, "transfer", sdk.NewCoins(sdk.NewInt64Coin(d, 3)))
				}))
			}
			mint("stake", 2)
			mint(news[0], 1, news[2], 1)
			mint(evmDenom(l.m.toks[2].addr), 1)
			mint("evm/"+strings.Repeat("ab", 20), 1)
			mint("evm/xx", 1, "uxyz", 1)
			for _, who := range []common.Address{u1, con, chain} {
				for _, name := range []string{"uxyz", "stake"} {
					o = append(o, mop("factory "+name+" by "+nm(who), func(m *model) bool {
						add(m, name, "", false, who)
						return true
					}, func(ctx sdk.Context) error {
						_, err := l.factoryToken(ctx, who, name)
						return err
					}))
				}
			}
			for _, x := range m.toks[5:] {
				if x.owner != chain && x.chain == false {
					o = append(o, l.opTok(x, x.owner, "mint", u2, n(4)))
				}
			}
			o = append(o, l.opTok(l.m.toks[1], chain, "transferOwnership", u2), l.opSend(u1, u2, coins(l.m, "ufoo", 5)))
			return o
		}
		WalkOps[*model](c, "binding", Pick(c, 3, 4), func(int) OpSys[*model] {
			l := newLab(c)
			for l.facNonce = 0; ; l.facNonce++ {
				if crypto.CreateAddress(l.fac, l.facNonce) == l.m.toks[2].addr {
					break
				}
			}
			l.facNonce++
			return sys{l, ops, func(l *lab, ctx sdk.Context, m *model) string { return l.bindings(ctx, m) }}
		})

		// malformed contract denominations: every length and every single wrong character
		l := newLab(c)
		body := strings.Repeat("aB3", 14)[:40]
		check := func(d string, ok bool) {
			c.Exec("denom " + d)
			c.Trans(1)
			c.State(d)
			a, err := evmtypes.DenomToContractAddr(l.base, l.w.K, d)
			if (err == nil) != ok || ok && a != common.HexToAddress(d[4:]) || !ok && a != (common.Address{}) {
				c.Violate("malformed", fmt.Sprintf("%q resolves to %s (%v)", d, a, err), d, nil)
			} else {
				c.Validated(1)
			}
		}
		for n := 0; n <= 64; n++ {
			b := strings.Repeat("aB3", 22)[:n]
			check("evm/"+b, n == 40)
		}
		for i := 0; i < 40; i++ {
			for ch := 0; ch < 256; ch++ {
				b := []byte(body)
				b[i] = byte(ch)
				hex := strings.ContainsRune("0123456789abcdefABCDEF", rune(ch))
				check("evm/"+string(b), hex)
			}
		}
		for _, p := range []string{"EVM/", "evm", "evm//", " evm/", "Evm/", "evm/ ", "evm\\", "/evm/", "ibc/", ""} {
			check(p+body, false)
		}
		// every contract keeps its canonical spelling
		for _, t := range l.m.toks {
			d, err := evmtypes.ContractAddrToDenom(l.base, l.w.K, t.addr)
			Must(err)
			a, err := evmtypes.DenomToContractAddr(l.base, l.w.K, d)
			if err != nil || a != t.addr {
				c.Violate("canonical", fmt.Sprintf("%s: %s %v", d, a, err), d, nil)
			}
		}
		_ = erc20.Erc20Bin
		_ = initia_erc20.InitiaErc20Bin
	})
}
