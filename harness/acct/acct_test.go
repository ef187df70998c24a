// Package acct explores account identity.
package acct

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

var (
	keyA  = NewKey("acct-a")
	whale = NewKey("acct-whale")
	tailA = keyA.Addr
	tailZ common.Address // where a contract may be created
	tailC = Addr("acct-contract")
	tailM = common.BytesToAddress(authtypes.NewModuleAddress(transfertypes.ModuleName))
	rec   = Addr("acct-recorder")
)

var initCode = []byte{0x60, 0x01, 0x60, 0x00, 0x52, 0x60, 0x01, 0x60, 0x1f, 0xf3} // deploys the one-byte contract 0x01... (ADD; stops on an empty stack with an error)

func long(b byte, n int, tail common.Address) sdk.AccAddress {
	return append(bytes.Repeat([]byte{b}, n), tail.Bytes()...)
}

// party is a longer chain address.
type party struct {
	name string
	acc  sdk.AccAddress
	tail common.Address
}

// model: who owns each tail, and what is on it.
type model struct {
	owner map[common.Address]string // "" none, "short", "contract", "module", or the name of a longer address
	bal   map[common.Address]int64
}

func (m *model) clone() *model {
	n := &model{owner: map[common.Address]string{}, bal: map[common.Address]int64{}}
	for k, v := range m.owner {
		n.owner[k] = v
	}
	for k, v := range m.bal {
		n.bal[k] = v
	}
	return n
}

func (m *model) canon() string {
	var l []string
	for k, v := range m.owner {
		l = append(l, k.Hex()+"="+v)
	}
	for k, v := range m.bal {
		l = append(l, fmt.Sprint(k.Hex(), ":", v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

type lab struct {
	c       *Check
	w       *World
	base    sdk.Context
	m       *model
	longs   []party
	tails   []common.Address
	num     uint64
	maker   common.Address
	monitor bool
	last    string
}

type op = MOp[*model]

func newLab(c *Check) *lab {
	w := NewWorld(WorldCfg{GenAccs: []authtypes.GenesisAccount{whale.GenAccount(0)}})
	w.StartBlock(2, GenesisTime.Add(2*time.Second))
	l := &lab{c: c, w: w, maker: Addr("acct-maker")}
	l.base = Fresh(Branch(w.Ctx()), 1<<50)
	ctx := l.base
	w.Fund(ctx, whale.Addr, FeeDenom, 1000)
	// the maker creates a contract with CREATE2, from calldata as init code
	w.SetCode(ctx, l.maker, NewAsm().Op(0x36).Push(0).Push(0).Op(0x37).Push(0).Op(0x36).Push(0).Push(0).Op(0xf5, 0x80).PushLabel("ok").Op(0x57).Push(0).Push(0).Op(0xfd).Label("ok").Push(0).Op(0x52).Push(32).Push(0).Op(0xf3).Bytes())
	tailZ = crypto.CreateAddress2(l.maker, [32]byte{}, crypto.Keccak256(initCode))
	w.SetCode(ctx, tailC, []byte{0})
	// the recorder answers and stores who called
	w.SetCode(ctx, rec, NewAsm().Op(0x33).Push(0).Op(0x55, 0x33).Push(0).Op(0x52).Push(32).Push(0).Op(0xf3).Bytes())
	w.App.AccountKeeper.GetModuleAccount(ctx, transfertypes.ModuleName)
	fresh := Addr("acct-fresh")
	l.longs = []party{
		{"A1", long(7, 12, tailA), tailA}, {"A2", long(8, 12, tailA), tailA}, {"A21", long(9, 1, tailA), tailA},
		{"F1", long(7, 12, fresh), fresh}, {"F2", long(0, 12, fresh), fresh},
		{"Z1", long(7, 12, tailZ), tailZ}, {"C1", long(7, 12, tailC), tailC}, {"M1", long(7, 12, tailM), tailM},
	}
	l.tails = []common.Address{tailA, fresh, tailZ, tailC, tailM}
	l.m = &model{owner: map[common.Address]string{tailC: "contract", tailM: "module"}, bal: map[common.Address]int64{}}
	return l
}

func (l *lab) msg(ctx sdk.Context, m sdk.Msg) (*sdk.Result, error) {
	h := l.w.App.MsgServiceRouter().Handler(m)
	if h == nil {
		return nil, errors.New("no handler")
	}
	return h(ctx, m)
}

func coin(n int64) sdk.Coins { return sdk.NewCoins(sdk.NewInt64Coin(FeeDenom, n)) }

// bind is the rule of first use by a longer address.
func (m *model) bind(p party) bool {
	switch m.owner[p.tail] {
	case p.name:
		return true
	case "":
		m.owner[p.tail] = p.name
		return true
	}
	return false
}

func (l *lab) Base() (sdk.Context, *model) { return l.base, l.m }
func (l *lab) Canon(m *model) string       { return m.canon() }
func (l *lab) Digest(ctx sdk.Context) string {
	return l.w.DigestStores(ctx, "capability", "oracle", "marketmap", "upgrade")
}
func (l *lab) After(_ sdk.Context, _ string, err error) string {
	if err != nil && strings.HasPrefix(err.Error(), "identity:") {
		return err.Error()
	}
	return ""
}

func (l *lab) seq(ctx sdk.Context, a sdk.AccAddress) (uint64, uint64) {
	if x := l.w.App.AccountKeeper.GetAccount(ctx, a); x != nil {
		return x.GetSequence(), x.GetAccountNumber()
	}
	return 0, 0
}

func (l *lab) Ops(m0 *model) []op {
	var o []op
	add := func(name string, mod func(m *model) bool, real func(ctx sdk.Context) error) {
		o = append(o, op{Name: name, Model: func(m *model) (*model, bool) { n := m.clone(); ok := mod(n); return n, ok }, Real: real})
	}
	fund := func(name string, to sdk.AccAddress, tail common.Address, ok func(m *model) bool) {
		add("fund "+name, func(m *model) bool {
			if !ok(m) {
				return false
			}
			m.bal[tail] += 5
			return true
		}, func(ctx sdk.Context) error {
			_, err := l.msg(ctx, &banktypes.MsgSend{FromAddress: whale.Acc().String(), ToAddress: to.String(), Amount: coin(5)})
			return err
		})
	}
	for _, p := range l.longs {
		p := p
		fund(p.name, p.acc, p.tail, func(m *model) bool { return m.owner[p.tail] == "" || m.owner[p.tail] == p.name })
		// called by the longer address (a module acting for it)
		add(p.name+" calls", func(m *model) bool { return m.bind(p) }, func(ctx sdk.Context) error {
			res, err := l.msg(ctx, &evmtypes.MsgCall{Sender: p.acc.String(), ContractAddr: rec.Hex(), Input: "0x", Value: math.ZeroInt()})
			if err != nil {
				return err
			}
			if got := common.BytesToAddress(l.slot(ctx, rec)); got != p.tail {
				return fmt.Errorf("identity: %s acts as %s", p.name, got)
			}
			_ = res
			return nil
		})
		add(p.name+" sends 1", func(m *model) bool {
			if m.bal[p.tail] < 1 || !m.bind(p) {
				return false
			}
			m.bal[p.tail]--
			return true
		}, func(ctx sdk.Context) error {
			_, err := l.msg(ctx, &banktypes.MsgSend{FromAddress: p.acc.String(), ToAddress: whale.Acc().String(), Amount: coin(1)})
			return err
		})
		if p.name == "A1" || p.name == "F2" || p.name == "C1" {
			add(p.name+" deploys", func(m *model) bool { return m.bind(p) }, func(ctx sdk.Context) error {
				_, err := l.msg(ctx, &evmtypes.MsgCreate{Sender: p.acc.String(), Code: hexutil.Encode(initCode), Value: math.ZeroInt()})
				return err
			})
			add(p.name+" pays 2 in a call that fails", func(m *model) bool { return false }, func(ctx sdk.Context) error {
				_, err := l.msg(ctx, &evmtypes.MsgCall{Sender: p.acc.String(), ContractAddr: rec.Hex(), Input: "0x", Value: math.NewInt(1 << 40)})
				return err
			})
		}
	}
	fund("A", tailA.Bytes(), tailA, func(*model) bool { return true })
	fund("Z", tailZ.Bytes(), tailZ, func(*model) bool { return true })
	fund("C", tailC.Bytes(), tailC, func(*model) bool { return true })
	add("value 3 to A in the EVM", func(m *model) bool { m.bal[tailA] += 3; return true }, func(ctx sdk.Context) error {
		_, _, err := l.w.K.EVMCall(ctx, whale.Addr, tailA, nil, uint256.NewInt(3), nil)
		return err
	})
	add("maker creates Z", func(m *model) bool {
		if m.owner[tailZ] != "" {
			return false
		}
		m.owner[tailZ] = "contract"
		return true
	}, func(ctx sdk.Context) error {
		_, _, err := l.w.K.EVMCall(ctx, whale.Addr, l.maker, initCode, nil, nil)
		return err
	})
	// the short address with its own key, through the real pipeline
	tx := func(name string, msg sdk.Msg, mod func(m *model) bool) {
		o = append(o, op{Name: "A signs " + name, Keep: true, Model: func(m *model) (*model, bool) {
			n := m.clone()
			if n.owner[tailA] != "" && n.owner[tailA] != "short" {
				return n, false
			}
			if !l.exists(n) {
				return n, false
			}
			n.owner[tailA] = "short"
			return n, mod(n)
		}, Real: func(ctx sdk.Context) error {
			s, an := l.seq(ctx, tailA.Bytes())
			d := l.w.DeliverOn(ctx, keyA.SignSDK(TxOpts{Msgs: []sdk.Msg{msg}, Gas: 5_000_000, Fee: sdk.Coins{}, Seq: s, AccNum: an}))
			if d.Err != "" {
				return errors.New(d.Err)
			}
			if _, ok := msg.(*evmtypes.MsgCall); ok {
				if got := common.BytesToAddress(l.slot(ctx, rec)); got != tailA {
					return fmt.Errorf("identity: A acts as %s", got)
				}
			}
			return nil
		}})
	}
	tx("a call", &evmtypes.MsgCall{Sender: sdk.AccAddress(tailA.Bytes()).String(), ContractAddr: rec.Hex(), Input: "0x", Value: math.ZeroInt()}, func(*model) bool { return true })
	tx("a send", &banktypes.MsgSend{FromAddress: sdk.AccAddress(tailA.Bytes()).String(), ToAddress: whale.Acc().String(), Amount: coin(2)}, func(m *model) bool {
		if m.bal[tailA] < 2 {
			return false
		}
		m.bal[tailA] -= 2
		return true
	})
	return o
}

// exists: the short account exists once anything was sent to it.
func (l *lab) exists(m *model) bool { return m.owner[tailA] != "" || m.bal[tailA] > 0 }

func (l *lab) Observe(ctx sdk.Context, m *model) string {
	for _, t := range l.tails {
		got := l.w.Bal(ctx, t, FeeDenom).Int64()
		if got != m.bal[t] {
			return fmt.Sprintf("%s holds %d, expected %d", t, got, m.bal[t])
		}
		a := l.w.App.AccountKeeper.GetAccount(ctx, t.Bytes())
		o := m.owner[t]
		sh, isSh := a.(*evmtypes.ShorthandAccount)
		wantSh := o != "" && o != "short" && o != "contract" && o != "module"
		if isSh != wantSh {
			return fmt.Sprintf("%s is a shorthand: %v, expected owner %q", t, isSh, o)
		}
		if isSh {
			for _, p := range l.longs {
				if p.name == o && sh.OriginalAddress != p.acc.String() {
					return fmt.Sprintf("%s is bound to %s, expected %s", t, sh.OriginalAddress, p.name)
				}
			}
			if sh.GetPubKey() != nil {
				return "a shorthand account has a public key"
			}
		}
		if _, is := a.(*evmtypes.ContractAccount); is != (o == "contract") {
			return fmt.Sprintf("%s is a contract: %v, expected owner %q", t, is, o)
		}
		if _, is := a.(sdk.ModuleAccountI); is != (o == "module") {
			return fmt.Sprintf("%s is a module: %v", t, is)
		}
	}
	// the balance seen through each longer address is the shorthand's, for the owner alone
	for _, p := range l.longs {
		var b int64
		err := Try(func() { b = l.w.App.BankKeeper.GetBalance(Fresh(ctx, 1<<40), p.acc, FeeDenom).Amount.Int64() })
		if mine := m.owner[p.tail] == p.name || m.owner[p.tail] == ""; mine && (err != "" || b != m.bal[p.tail]) {
			return fmt.Sprintf("%s sees %d (%s), expected %d", p.name, b, err, m.bal[p.tail])
		} else if !mine && err == "" && b != 0 {
			return fmt.Sprintf("%s sees the %d of %q", p.name, b, m.owner[p.tail])
		}
	}
	return ""
}

func TestA01(t *testing.T) {
	Run("A01", "model_checking", func(c *Check) {
		WalkOps[*model](c, "identity", Pick(c, 3, 4), func(int) OpSys[*model] { return newLab(c) })
	})
}

func (l *lab) slot(ctx sdk.Context, a common.Address) []byte {
	db, err := l.w.K.NewStateDB(Fresh(ctx, 1<<40), nil, evmtypes.Fee{})
	Must(err)
	v := db.GetState(a, common.Hash{})
	return v[:]
}
