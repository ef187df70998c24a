// Package nft explores NFT classes and tokens.
package nft

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"

	sdk "github.com/cosmos/cosmos-sdk/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	chantypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	nfttypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"
	"github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

var (
	u1, u2, u3 = Addr("nft-u1"), Addr("nft-u2"), Addr("nft-u3")
	accepts    = Addr("nft-accepts")
	rejects    = Addr("nft-rejects")
	forwards   = Addr("nft-forwards") // hands what it receives to u2
	burns      = Addr("nft-burns")    // burns what it receives
	long       = func() sdk.AccAddress {
		h := sha256.Sum256([]byte("nft-long"))
		return h[:]
	}()
	longTail = common.BytesToAddress(long)
	magic    = common.FromHex("150b7a02")
)

type token struct {
	owner    common.Address
	uri, oid string
	approved common.Address
}

type class struct {
	id, uri, name string
	addr          common.Address
	chain         bool // made by the chain
	toks          map[string]token // by number
}

type model struct {
	cls  map[string]*class
	ops  map[string]bool // class|owner|operator
	next uint64          // the next nonce of the chain's address
}

func (m *model) clone() *model {
	n := &model{cls: map[string]*class{}, ops: map[string]bool{}, next: m.next}
	for k, c := range m.cls {
		d := *c
		d.toks = map[string]token{}
		for i, t := range c.toks {
			d.toks[i] = t
		}
		n.cls[k] = &d
	}
	for k := range m.ops {
		n.ops[k] = true
	}
	return n
}

func (m *model) canon() string {
	var s []string
	for k, c := range m.cls {
		s = append(s, k+" "+c.uri+" "+c.addr.Hex())
		for i, t := range c.toks {
			s = append(s, fmt.Sprint(k, i, t))
		}
	}
	for k := range m.ops {
		s = append(s, k)
	}
	sort.Strings(s)
	return fmt.Sprint(m.next, s)
}

var limit = new(big.Int).Lsh(big.NewInt(1), 256)

// number is the number an identifier stands for, "" when it stands for none.
func number(cls, id string) string {
	if strings.HasPrefix(cls, "ibc/") {
		h := sha256.Sum256([]byte(id))
		return new(big.Int).SetBytes(h[:]).String()
	}
	n, ok := new(big.Int).SetString(id, 10)
	if !ok || n.Sign() < 0 || n.Cmp(limit) >= 0 {
		return ""
	}
	return n.String()
}

type lab struct {
	w    *World
	k    *evmkeeper.ERC721Keeper
	abi  *abi.ABI
	base sdk.Context
	m0   *model
	evm  string // the class of the contract u1 deployed
	vcls string // the class of vouchers received on channel-0
}

func newLab() *lab {
	l := &lab{w: NewWorld(WorldCfg{})}
	l.k = l.w.K.ERC721Keeper().(*evmkeeper.ERC721Keeper)
	l.abi = l.k.GetERC721ABI()
	ctx := Fresh(Branch(l.w.Base), 1<<50)
	l.base = ctx
	ret := func(b []byte) []byte {
		return NewAsm().PushB(common.RightPadBytes(b, 32)).Push(0).Op(0x52).Push(32).Push(0).Op(0xf3).Bytes()
	}
	l.w.SetCode(ctx, accepts, ret(magic))
	l.w.SetCode(ctx, rejects, ret([]byte{1, 2, 3, 4}))
	hook := func(sel string, args func(a *Asm) int) []byte {
		a := NewAsm().PushB(common.RightPadBytes(crypto.Keccak256([]byte(sel))[:4], 32)).Push(0).Op(0x52)
		n := args(a)
		a.Push(0).Push(0).Push(uint64(n)).Push(0).Push(0).Op(0x33, 0x5a, 0xf1).PushLabel("ok").Op(0x57).Push(0).Push(0).Op(0xfd).Label("ok")
		a.PushB(common.RightPadBytes(magic, 32)).Push(0).Op(0x52).Push(32).Push(0).Op(0xf3)
		return a.Bytes()
	}
	l.w.SetCode(ctx, forwards, hook("transferFrom(address,address,uint256)", func(a *Asm) int {
		a.Op(0x30).Push(4).Op(0x52).PushAddr(u2).Push(36).Op(0x52).Push(68).Op(0x35).Push(68).Op(0x52)
		return 100
	}))
	l.w.SetCode(ctx, burns, hook("burn(uint256)", func(a *Asm) int {
		a.Push(68).Op(0x35).Push(4).Op(0x52)
		return 36
	}))
	for _, u := range []common.Address{u1, u2, u3} {
		l.w.EnsureAcc(ctx, u)
	}
	// a class of a contract that a user deployed, with two tokens
	bin, err := hexutil.Decode(ics721_erc721.Ics721Erc721Bin)
	Must(err)
	args, err := l.abi.Pack("", "user class", "UC")
	Must(err)
	_, addr, _, err := l.w.K.EVMCreate(Fresh(ctx, 50_000_000), u1, append(bin, args...), nil, nil)
	Must(err)
	l.evm, err = evmtypes.ClassIdFromCollectionAddress(ctx, l.w.K, addr)
	Must(err)
	l.m0 = &model{cls: map[string]*class{}, ops: map[string]bool{}}
	l.m0.cls[l.evm] = &class{id: l.evm, name: "user class", addr: addr, toks: map[string]token{}}
	for _, n := range []string{"5", "6"} {
		i, _ := new(big.Int).SetString(n, 10)
		l.call(ctx, u1, addr, "mint", u1, i, "uri"+n, "origin"+n)
		l.m0.cls[l.evm].toks[n] = token{owner: u1, uri: "uri" + n, oid: "origin" + n}
	}
	seq, err := l.w.App.AccountKeeper.GetSequence(ctx, evmtypes.StdAddress.Bytes())
	Must(err)
	l.m0.next = seq
	p := nfttypes.ParseClassTrace(nfttypes.GetClassIdPrefix("nft-transfer", "channel-0") + "remote")
	l.vcls = p.IBCClassId()
	// one class and tokens exist already
	for _, op := range l.Ops(l.m0) {
		if op.Name == "class A u" || op.Name == "mint A [t1 t2] to u1" {
			Must(op.Real(Fresh(ctx, 50_000_000)))
			var ok bool
			if l.m0, ok = op.Model(l.m0); !ok {
				panic(HarnessFault(op.Name))
			}
		}
	}
	return l
}

func (l *lab) call(ctx sdk.Context, from, to common.Address, fn string, args ...any) error {
	in, err := l.abi.Pack(fn, args...)
	if err != nil {
		panic(HarnessFault(fn + ": " + err.Error()))
	}
	_, _, err = l.w.K.EVMCall(ctx, from, to, in, nil, nil)
	return err
}

func (l *lab) view(ctx sdk.Context, to common.Address, fn string, args ...any) string {
	in, err := l.abi.Pack(fn, args...)
	Must(err)
	ret, err := l.w.K.EVMStaticCall(Fresh(ctx, 30_000_000), u3, to, in, nil)
	if err != nil {
		return "-"
	}
	out, err := l.abi.Unpack(fn, ret)
	if err != nil {
		return "?"
	}
	return fmt.Sprint(out...)
}

// give moves or makes a token on the model, as far as the receiver lets it.
func (c *class) give(n string, t token, to common.Address) bool {
	if to == rejects || to == (common.Address{}) {
		return false
	}
	t.owner, t.approved = to, common.Address{}
	switch to {
	case forwards:
		t.owner = u2
	case burns:
		delete(c.toks, n)
		return true
	}
	c.toks[n] = t
	return true
}

func (m *model) may(c *class, t token, by common.Address) bool {
	return t.owner == by || t.approved == by || m.ops[fmt.Sprint(c.id, t.owner, by)]
}

type op = MOp[*model]

func mop(name string, mdl func(m *model) bool, real func(ctx sdk.Context) error) op {
	return op{Name: name, Real: real, Model: func(m *model) (*model, bool) {
		n := m.clone()
		ok := mdl(n)
		return n, ok
	}}
}

func (l *lab) Ops(m *model) []op {
	var o []op
	nm := map[string]string{"ibc/AA": "A", "ibc/BB": "B", l.evm: "E", l.vcls: "V"}
	short := func(c string) string {
		if n, ok := nm[c]; ok {
			return n
		}
		return c
	}
	wn := map[string]string{string(u1.Bytes()): "u1", string(u2.Bytes()): "u2", string(u3.Bytes()): "u3", string(accepts.Bytes()): "accepting", string(rejects.Bytes()): "rejecting", string(forwards.Bytes()): "forwarding", string(burns.Bytes()): "burning", string(long): "long"}
	evm := func(a sdk.AccAddress) common.Address { return common.BytesToAddress(a) }
	mkClass := func(m *model, id, uri string) *class {
		c := m.cls[id]
		if c == nil {
			c = &class{id: id, name: id, addr: crypto.CreateAddress(evmtypes.StdAddress, m.next), chain: true, toks: map[string]token{}}
			m.next++
			m.cls[id] = c
		}
		c.uri = uri
		return c
	}
	mintM := func(m *model, cls string, ids, uris []string, to sdk.AccAddress) bool {
		c := m.cls[cls]
		if c == nil || !c.chain {
			return false
		}
		for i, id := range ids {
			m.next += 0
			n := number(cls, id)
			if n == "" {
				return false
			}
			if _, dup := c.toks[n]; dup || !c.give(n, token{uri: uris[i], oid: id}, evm(to)) {
				return false
			}
		}
		return true
	}
	cls := func(id, uri string) {
		o = append(o, mop("class "+short(id)+" "+uri, func(m *model) bool { mkClass(m, id, uri); return true },
			func(ctx sdk.Context) error { return l.k.CreateOrUpdateClass(ctx, id, uri, "data") }))
	}
	uris := func(ids []string, tag string) (u []string) {
		for _, i := range ids {
			u = append(u, tag+"#"+i)
		}
		return
	}
	mint := func(id string, to sdk.AccAddress, ids ...string) {
		u := uris(ids, "m")
		o = append(o, mop(fmt.Sprintf("mint %s %v to %s", short(id), ids, wn[string(to)]), func(m *model) bool { return mintM(m, id, ids, u, to) },
			func(ctx sdk.Context) error { return l.k.Mints(ctx, to, id, ids, u, uris(ids, "d")) }))
	}
	move := func(id string, from, to sdk.AccAddress, ids ...string) {
		o = append(o, mop(fmt.Sprintf("move %s %v %s to %s", short(id), ids, wn[string(from)], wn[string(to)]), func(m *model) bool {
			c := m.cls[id]
			if c == nil {
				return false
			}
			for _, x := range ids {
				n := number(id, x)
				t, ok := c.toks[n]
				if !ok || t.owner != evm(from) || !c.give(n, t, evm(to)) {
					return false
				}
			}
			return true
		}, func(ctx sdk.Context) error { return l.k.Transfers(ctx, from, to, id, ids) }))
	}
	burn := func(id string, by sdk.AccAddress, ids ...string) {
		o = append(o, mop(fmt.Sprintf("burn %s %v by %s", short(id), ids, wn[string(by)]), func(m *model) bool {
			c := m.cls[id]
			if c == nil {
				return false
			}
			for _, x := range ids {
				n := number(id, x)
				t, ok := c.toks[n]
				if !ok || !m.may(c, t, evm(by)) {
					return false
				}
				delete(c.toks, n)
			}
			return true
		}, func(ctx sdk.Context) error { return l.k.Burns(ctx, by, id, ids) }))
	}
	direct := func(name string, by common.Address, id string, mdl func(m *model, c *class) bool, fn string, args ...any) {
		o = append(o, mop(name, func(m *model) bool {
			if c := m.cls[id]; c != nil {
				return mdl(m, c)
			}
			return false
		}, func(ctx sdk.Context) error {
			a, err := evmtypes.ContractAddressFromClassId(ctx, l.w.K, id)
			if err != nil {
				return err
			}
			return l.call(ctx, by, a, fn, args...)
		}))
	}
	A, B, E := "ibc/AA", "ibc/BB", l.evm
	num := func(c, id string) *big.Int { n, _ := new(big.Int).SetString(number(c, id), 10); return n }
	a1, a2, a3 := sdk.AccAddress(u1.Bytes()), sdk.AccAddress(u2.Bytes()), sdk.AccAddress(u3.Bytes())
	cls(A, "u")
	cls(A, "w")
	cls(B, "")
	cls("plain", "p")
	mint(A, a1, "t1", "t2")
	mint(A, a2, "t1")
	mint(A, a2, "t3", "T3", "3", "03")
	mint(A, a1, "t3", "t3")
	mint(B, a1, "t1")
	mint(B, long, "t2")
	mint("plain", a1, "1", "2")
	mint("plain", a1, "x")
	mint("plain", a1, "-1")
	mint("plain", a2, new(big.Int).Add(limit, big.NewInt(1)).String())
	mint("plain", a2, new(big.Int).Sub(limit, big.NewInt(1)).String())
	mint("none", a1, "1")
	mint(E, a1, "9")
	mint(A, accepts.Bytes(), "t4")
	mint(A, rejects.Bytes(), "t4")
	mint(A, forwards.Bytes(), "t4")
	mint(A, burns.Bytes(), "t4")
	mint(A, common.Address{}.Bytes(), "t4")
	move(A, a1, a2, "t1")
	move(A, a1, a2, "t1", "t2")
	move(A, a1, a1, "t1")
	move(A, a1, a2, "t2", "t2")
	move(A, a2, a1, "t1")
	move(A, a2, a3, "t1", "t3")
	move(A, a1, long, "t2")
	move(A, long, a1, "t2")
	move(B, long, a2, "t2")
	move(A, a1, rejects.Bytes(), "t1")
	move(A, a1, forwards.Bytes(), "t2", "t1")
	move(A, a1, burns.Bytes(), "t1")
	move(A, a1, accepts.Bytes(), "t2")
	move(A, accepts.Bytes(), a3, "t4")
	move("plain", a1, a2, "1")
	move("plain", a1, a2, "02")
	move("none", a1, a2, "1")
	move(E, a1, a2, "5")
	move(E, a1, a2, new(big.Int).Add(limit, big.NewInt(5)).String())
	move(E, a1, a2, new(big.Int).Neg(new(big.Int).Sub(limit, big.NewInt(5))).String())
	move(E, a1, a2, "5.0")
	move(E, a1, a2, "")
	move(E, a2, a1, "6")
	move("evm/"+u3.Hex()[2:], a1, a2, "1")
	move("evm/zz", a1, a2, "1")
	burn(A, a1, "t1")
	burn(A, a1, "t1", "t1")
	burn(A, a2, "t1")
	burn(A, a1, "t2", "t1")
	burn(A, a3, "t2")
	burn("plain", a1, "2")
	burn(E, a1, "6")
	burn(E, a1, new(big.Int).Add(limit, big.NewInt(6)).String())
	burn("evm/"+u3.Hex()[2:], a1, "1")
	t1 := num(A, "t1")
	appr := func(by, to common.Address, id, x string) {
		direct(fmt.Sprintf("%s approves %s for %s %s", wn[string(by.Bytes())], wn[string(to.Bytes())], short(id), x), by, id, func(m *model, c *class) bool {
			n := number(id, x)
			t, ok := c.toks[n]
			if !ok || t.owner != by && !m.ops[fmt.Sprint(c.id, t.owner, by)] {
				return false
			}
			t.approved = to
			c.toks[n] = t
			return true
		}, "approve", to, num(id, x))
	}
	appr(u1, u2, A, "t1")
	appr(u2, u3, A, "t1")
	direct("u1 trusts u2 with A", u1, A, func(m *model, c *class) bool { m.ops[fmt.Sprint(c.id, u1, u2)] = true; return true }, "setApprovalForAll", u2, true)
	direct("u2 takes A t1 from u1", u2, A, func(m *model, c *class) bool {
		t, ok := c.toks[t1.String()]
		if !ok || t.owner != u1 || !m.may(c, t, u2) {
			return false
		}
		t.owner, t.approved = u2, common.Address{}
		c.toks[t1.String()] = t
		return true
	}, "transferFrom", u1, u2, t1)
	direct("u3 mints A t9", u3, A, func(*model, *class) bool { return false }, "mint", u3, num(A, "t9"), "x", "t9")
	direct("u1 mints E 7", u1, E, func(m *model, c *class) bool {
		if _, ok := c.toks["7"]; ok {
			return false
		}
		return c.give("7", token{uri: "direct", oid: "o7"}, u2)
	}, "mint", u2, big.NewInt(7), "direct", "o7")
	// packets from another chain
	recv := func(clsID string, uri string, to common.Address, ids ...string) {
		u := uris(ids, "r")
		o = append(o, mop(fmt.Sprintf("receive %s %s %v for %s", clsID, uri, ids, wn[string(to.Bytes())]), func(m *model) bool {
			mkClass(m, l.vcls, uri)
			return mintM(m, l.vcls, ids, u, to.Bytes())
		}, func(ctx sdk.Context) error {
			data := nfttypes.NewNonFungibleTokenPacketData(clsID, uri, "", ids, u, uris(ids, "d"), "remote-sender", sdk.AccAddress(to.Bytes()).String(), "")
			pkt := chantypes.NewPacket(nil, 1, "nft-transfer", "channel-9", "nft-transfer", "channel-0", clienttypes.NewHeight(1, 100), 0)
			return l.w.App.NftTransferKeeper.OnRecvPacket(ctx, pkt, data)
		}))
	}
	recv("remote", "x", u1, "r1", "r2")
	recv("remote", "y", u2, "r1")
	recv("remote", "z", rejects, "r3")
	burn(l.vcls, a1, "r1")
	move(l.vcls, a1, a2, "r2")
	// an own token comes back from escrow
	esc := nfttypes.GetEscrowAddress("nft-transfer", "channel-0")
	wn[string(esc)] = "escrow"
	wn[string(esc.Bytes())] = "escrow"
	move(E, a1, esc, "5")
	o = append(o, mop("E 5 returns to u3", func(m *model) bool {
		c := m.cls[E]
		t, ok := c.toks["5"]
		if !ok || t.owner != evm(esc) {
			return false
		}
		return c.give("5", t, u3)
	}, func(ctx sdk.Context) error {
		data := nfttypes.NewNonFungibleTokenPacketData("nft-transfer/channel-9/"+E, "x", "", []string{"5"}, []string{""}, []string{""}, "remote-sender", a3.String(), "")
		pkt := chantypes.NewPacket(nil, 1, "nft-transfer", "channel-9", "nft-transfer", "channel-0", clienttypes.NewHeight(1, 100), 0)
		return l.w.App.NftTransferKeeper.OnRecvPacket(ctx, pkt, data)
	}))
	return o
}

func (l *lab) Base() (sdk.Context, *model)                     { return l.base, l.m0 }
func (l *lab) Canon(m *model) string                           { return m.canon() }
func (l *lab) Digest(ctx sdk.Context) string                   { return l.w.DigestStores(ctx) }
func (l *lab) After(ctx sdk.Context, n string, e error) string { return "" }

// what was observed without a finding
var looked sync.Map

func (l *lab) Observe(ctx sdk.Context, m *model) string {
	key := sha256.Sum256([]byte(m.canon() + l.w.DigestStores(ctx)))
	if _, ok := looked.Load(key); ok {
		return ""
	}
	d := l.observe(ctx, m)
	if d == "" {
		looked.Store(key, true)
	}
	return d
}

func (l *lab) observe(ctx sdk.Context, m *model) string {
	ctx = Fresh(ctx, 1<<50)
	k := l.w.K
	fwd, rev := map[string]common.Address{}, map[common.Address]string{}
	it, err := k.ERC721ContractAddrsByClassId.Iterate(ctx, nil)
	Must(err)
	kv, err := it.KeyValues()
	Must(err)
	for _, x := range kv {
		fwd[x.Key] = common.BytesToAddress(x.Value)
	}
	it2, err := k.ERC721ClassIdsByContractAddr.Iterate(ctx, nil)
	Must(err)
	kv2, err := it2.KeyValues()
	Must(err)
	for _, x := range kv2 {
		rev[common.BytesToAddress(x.Key)] = x.Value
	}
	n := 0
	for id, c := range m.cls {
		if c.chain {
			n++
			if fwd[id] != c.addr || rev[c.addr] != id {
				return fmt.Sprintf("class %s is bound to %s, whose class is %q; expected %s", id, fwd[id], rev[c.addr], c.addr)
			}
		}
		if x, err := evmtypes.ClassIdFromCollectionAddress(ctx, k, c.addr); err != nil || x != id {
			return fmt.Sprintf("the class of %s is %s (%v), expected %s", c.addr, x, err, id)
		}
		if x, err := evmtypes.ContractAddressFromClassId(ctx, k, id); err != nil || x != c.addr {
			return fmt.Sprintf("the contract of %s is %s (%v), expected %s", id, x, err, c.addr)
		}
		name, uri, _, err := l.k.GetClassInfo(ctx, id)
		if err != nil || name != c.name || uri != c.uri {
			return fmt.Sprintf("class %s has the name %q and data %q (%v), expected %q and %q", id, name, uri, err, c.name, c.uri)
		}
		bal := map[common.Address]int64{}
		var ids, want []string
		for i, t := range c.toks {
			bal[t.owner]++
			x, _ := new(big.Int).SetString(i, 10)
			if got := l.view(ctx, c.addr, "ownerOf", x); got != t.owner.Hex() {
				return fmt.Sprintf("token %s %s (%s) belongs to %s, expected %s", id, t.oid, i, got, t.owner)
			}
			if got := l.view(ctx, c.addr, "tokenURI", x); got != t.uri {
				return fmt.Sprintf("token %s %s has the data %s, expected %s", id, t.oid, got, t.uri)
			}
			if got := l.view(ctx, c.addr, "tokenOriginId", x); got != t.oid {
				return fmt.Sprintf("token %s %s has the identifier %q", id, t.oid, got)
			}
			nm := i
			if c.chain {
				nm = t.oid
			}
			ids, want = append(ids, nm), append(want, t.uri)
			own, err := l.k.OwnerOf(ctx, nm, id)
			if err != nil || own != t.owner {
				return fmt.Sprintf("token %s %s belongs to %s (%v), expected %s", id, nm, own, err, t.owner)
			}
		}
		got, _, err := l.k.GetTokenInfos(ctx, id, ids)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("tokens %s %v have the data %v (%v), expected %v", id, ids, got, err, want)
		}
		for _, u := range []common.Address{u1, u2, u3, accepts, rejects, forwards, burns, common.BytesToAddress(nfttypes.GetEscrowAddress("nft-transfer", "channel-0"))} {
			b, err := l.k.BalanceOf(ctx, u.Bytes(), id)
			if err != nil || b.Int64() != bal[u] {
				return fmt.Sprintf("%s holds %s of %s (%v), expected %d", u, b, id, err, bal[u])
			}
		}
		b, err := l.k.BalanceOf(ctx, long, id)
		if err != nil || b.Int64() != bal[longTail] {
			return fmt.Sprintf("the long account holds %s of %s (%v), expected %d", b, id, err, bal[longTail])
		}
		for _, x := range []string{"t1", "t2", "t3", "t4", "1", "2", "5", "6", "7", "9", "r1"} {
			if nn := number(id, x); nn != "" {
				if _, ok := c.toks[nn]; !ok {
					if own, err := l.k.OwnerOf(ctx, x, id); err == nil {
						return fmt.Sprintf("token %s %s, which does not exist, belongs to %s", id, x, own)
					}
				}
			}
		}
	}
	if n != len(fwd) || n != len(rev) {
		return fmt.Sprintf("%d classes, %d bound to contracts, %d contracts bound", n, len(fwd), len(rev))
	}
	return ""
}

// TestN01 decides that classes and ownership stay consistent with their contracts.
func TestN01(t *testing.T) {
	Run("N01", "bounded", func(c *Check) {
		depth := Pick(c, 3, 4)
		c.Note("depth", depth)
		l := newLab()
		var names []string
		for _, o := range l.Ops(l.m0) {
			names = append(names, o.Name)
		}
		c.Note("operations", names)
		WalkOps[*model](c, "nft", depth, func(i int) OpSys[*model] {
			if i == -1 {
				return l
			}
			return newLab()
		})
	})
}
