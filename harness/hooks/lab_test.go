// Package hooks explores the calls and callbacks that packets carry.
package hooks

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	chantypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	ibcexported "github.com/cosmos/ibc-go/v8/modules/core/exported"
	localhost "github.com/cosmos/ibc-go/v8/modules/light-clients/09-localhost"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	hookstypes "github.com/initia-labs/initia/x/ibc-hooks/types"
	nfttypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"
	"github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

const (
	tport, nport = "transfer", "nft-transfer"
)

var (
	u1, u2, u3 = Addr("hk-u1"), Addr("hk-u2"), Addr("hk-u3")
	worker     = Addr("hk-worker")  // records its caller and makes the call it is told
	reverter   = Addr("hk-revert")  // always reverts
	burner     = Addr("hk-burner")  // burns all the gas it gets
	nobody     = Addr("hk-nobody")  // has no code
	rkey       = NewPlainKey("hk-relayer")
	relayer    = rkey.Addr
)

// link is a pair of channel ends, both on this chain: ours and the one that plays the remote chain.
type link struct{ port, ours, theirs string }

type lab struct {
	w      *World
	base   sdk.Context
	t1, t2 link // two transfer links
	n1     link // an NFT link
	vdenom string
	vaddr  common.Address
	saddr  common.Address
	ncls   string
	naddr  common.Address
	tdenom string // of a token that u1 made
	taddr  common.Address
	ecls   string
	eaddr  common.Address
}

func (l *lab) handle(ctx sdk.Context, msg sdk.Msg) (err error) {
	h := l.w.App.MsgServiceRouter().Handler(msg)
	if h == nil {
		panic(HarnessFault("no handler for " + sdk.MsgTypeURL(msg)))
	}
	cc, commit := ctx.CacheContext()
	if p := Try(func() { _, err = h(cc, msg) }); p != "" {
		return fmt.Errorf("%s", p)
	}
	if err == nil {
		commit()
	}
	return err
}

func workerCode() []byte {
	a := NewAsm()
	a.Op(0x33).Push(0).Op(0x55)                   // 0: caller
	a.Op(0x34).Push(1).Op(0x55)                   // 1: value
	a.Push(2).Op(0x54).Push(1).Op(0x01).Push(2).Op(0x55) // 2: count
	a.Push(20).Op(0x36, 0x10, 0x15).PushLabel("go").Op(0x57, 0x00)
	a.Label("go")
	a.Push(20).Op(0x36, 0x03).Push(20).Push(0).Op(0x37) // calldatacopy(0,20,size-20)
	a.Push(0).Push(0).Push(20).Op(0x36, 0x03).Push(0).Push(0).Push(0).Op(0x35).Push(96).Op(0x1c, 0x5a, 0xf1)
	a.PushLabel("ok").Op(0x57).Push(0).Push(0).Op(0xfd).Label("ok").Op(0x00)
	return a.Bytes()
}

func newLab() *lab {
	l := &lab{w: NewWorld(WorldCfg{GenAccs: []authtypes.GenesisAccount{rkey.GenAccount(0)}})}
	w := l.w
	w.StartBlock(2, GenesisTime.Add(2*time.Second))
	ctx := Fresh(Branch(w.Ctx()), 1<<50)
	l.base = ctx
	open := func(port, version string) link {
		hop := []string{ibcexported.LocalhostConnectionID}
		s := relayer
		k := w.App.IBCKeeper.ChannelKeeper
		n := k.GetNextChannelSequence(ctx)
		a, b := fmt.Sprintf("channel-%d", n), fmt.Sprintf("channel-%d", n+1)
		h := clienttypes.NewHeight(1, 2)
		sgn := Acc(s).String()
		Must(l.handle(ctx, chantypes.NewMsgChannelOpenInit(port, version, chantypes.UNORDERED, hop, port, sgn)))
		Must(l.handle(ctx, chantypes.NewMsgChannelOpenTry(port, version, chantypes.UNORDERED, hop, port, a, version, localhost.SentinelProof, h, sgn)))
		Must(l.handle(ctx, chantypes.NewMsgChannelOpenAck(port, a, b, version, localhost.SentinelProof, h, sgn)))
		Must(l.handle(ctx, chantypes.NewMsgChannelOpenConfirm(port, b, localhost.SentinelProof, h, sgn)))
		return link{port, a, b}
	}
	l.t1 = open(tport, transfertypes.Version)
	l.n1 = open(nport, nfttypes.Version)
	l.t2 = open(tport, transfertypes.Version)

	w.SetCode(ctx, worker, workerCode())
	w.SetCode(ctx, reverter, NewAsm().Push(0).Push(0).Op(0xfd).Bytes())
	w.SetCode(ctx, burner, []byte{0xfe})
	for _, u := range []common.Address{u1, u2, u3} {
		w.EnsureAcc(ctx, u)
	}
	var err error
	l.saddr, err = w.K.GetContractAddrByDenom(ctx, FeeDenom)
	Must(err)
	w.Fund(ctx, u1, FeeDenom, 1000)
	fac, err := w.K.GetERC20FactoryAddr(ctx)
	Must(err)
	name := strings.Repeat("0", 63) + "1" + "78" + strings.Repeat("0", 62)
	ret, _, err := w.K.EVMCall(Fresh(ctx, 30_000_000), u1, fac, append(crypto.Keccak256([]byte("createERC20(string,string,uint8)"))[:4], common.FromHex(fmt.Sprintf("%064x%064x%064x", 0x60, 0xa0, 6)+name+name)...), nil, nil)
	Must(err)
	l.taddr = common.BytesToAddress(ret)
	l.tdenom, err = evmtypes.ContractAddrToDenom(ctx, w.K, l.taddr)
	Must(err)
	_, _, err = w.K.EVMCall(Fresh(ctx, 30_000_000), u1, l.taddr, pack("mint(address,uint256)", common.BytesToAddress(transfertypes.GetEscrowAddress(tport, l.t1.ours)), 500), nil, nil)
	Must(err)
	w.App.TransferKeeper.SetTotalEscrowForDenom(ctx, sdk.NewInt64Coin(l.tdenom, 500))
	// what the remote chain holds of ours
	for _, k := range []link{l.t1, l.t2} {
		esc := transfertypes.GetEscrowAddress(tport, k.ours)
		w.Fund(ctx, common.BytesToAddress(esc), FeeDenom, 500)
		tot := w.App.TransferKeeper.GetTotalEscrowForDenom(ctx, FeeDenom)
		w.App.TransferKeeper.SetTotalEscrowForDenom(ctx, tot.Add(sdk.NewInt64Coin(FeeDenom, 500)))
	}
	// a voucher token and a voucher class that exist already
	l.vdenom = transfertypes.ParseDenomTrace(transfertypes.GetPrefixedDenom(tport, l.t1.ours, "uremote")).IBCDenom()
	if e := l.recv(ctx, l.t1, l.ft("uremote", "100", "setup", Acc(u1).String(), "")); e != "" {
		panic(HarnessFault("setup: " + e))
	}
	l.vaddr, err = w.K.GetContractAddrByDenom(ctx, l.vdenom)
	Must(err)
	if e := l.recv(ctx, l.n1, l.nft("remote", "setup", Acc(u1).String(), "", "s1")); e != "" {
		panic(HarnessFault("setup nft: " + e))
	}
	l.ncls = nfttypes.ParseClassTrace(nfttypes.GetClassIdPrefix(nport, l.n1.ours) + "remote").IBCClassId()
	l.naddr, err = w.K.GetContractAddrByClassId(ctx, l.ncls)
	Must(err)
	// a class of this chain, with tokens away on the remote chain
	bin, err := hexutil.Decode(ics721_erc721.Ics721Erc721Bin)
	Must(err)
	abi := w.K.ERC721Keeper().GetERC721ABI()
	args, err := abi.Pack("", "user class", "UC")
	Must(err)
	_, l.eaddr, _, err = w.K.EVMCreate(Fresh(ctx, 50_000_000), u1, append(bin, args...), nil, nil)
	Must(err)
	l.ecls, err = evmtypes.ClassIdFromCollectionAddress(ctx, w.K, l.eaddr)
	Must(err)
	for i := int64(5); i < 8; i++ {
		in, err := abi.Pack("mint", common.BytesToAddress(nfttypes.GetEscrowAddress(nport, l.n1.ours)), big.NewInt(i), fmt.Sprint("uri", i), fmt.Sprint(i))
		Must(err)
		_, _, err = w.K.EVMCall(Fresh(ctx, 50_000_000), u1, l.eaddr, in, nil, nil)
		Must(err)
	}
	return l
}

func (l *lab) allow(ctx sdk.Context, a common.Address, ok bool) error {
	return l.handle(ctx, &hookstypes.MsgUpdateACL{Authority: l.w.App.BankKeeper.GetAuthority(), Address: Acc(a).String(), Allowed: ok})
}

// ft and nft make packet data.
func (l *lab) ft(denom, amount, sender, receiver, memo string) []byte {
	bz, err := json.Marshal(map[string]string{"denom": denom, "amount": amount, "sender": sender, "receiver": receiver, "memo": memo})
	Must(err)
	return bz
}

func (l *lab) nft(class, sender, receiver, memo string, ids ...string) []byte {
	var uris, data []string
	for _, i := range ids {
		uris, data = append(uris, "uri-"+i), append(data, "data")
	}
	return nfttypes.NewNonFungibleTokenPacketData(class, "class-uri", "class-data", ids, uris, data, sender, receiver, memo).GetBytes(nport)
}

// okAck is the acknowledgement of success.
var okAck = chantypes.NewResultAcknowledgement([]byte{1}).Acknowledgement()

const async = "no acknowledgement"

// recv delivers a packet from the remote end; it returns "" when it was acknowledged with success,
// "error" when it was acknowledged with an error.
func (l *lab) recv(ctx sdk.Context, k link, data []byte) string {
	ck := l.w.App.IBCKeeper.ChannelKeeper
	seq, _ := ck.GetNextSequenceSend(ctx, k.port, k.theirs)
	ck.SetNextSequenceSend(ctx, k.port, k.theirs, seq+1)
	p := chantypes.NewPacket(data, seq, k.port, k.theirs, k.port, k.ours, clienttypes.NewHeight(1, 1000), 0)
	ck.SetPacketCommitment(ctx, k.port, k.theirs, seq, chantypes.CommitPacket(l.w.App.AppCodec(), p))
	if err := l.handle(ctx, chantypes.NewMsgRecvPacket(p, localhost.SentinelProof, clienttypes.NewHeight(1, 2), Acc(relayer).String())); err != nil {
		return "the packet was not received: " + strings.SplitN(err.Error(), "\n", 2)[0]
	}
	got, ok := ck.GetPacketAcknowledgement(ctx, k.port, k.ours, seq)
	if !ok {
		return async
	}
	if string(got) == string(chantypes.CommitAcknowledgement(okAck)) {
		return ""
	}
	return "error"
}

// derived is the address that acts for a remote sender.
func derived(channel, sender string) sdk.AccAddress {
	t := sha256.Sum256([]byte("ibc-evm-hook-intermediary"))
	h := sha256.Sum256(append(t[:], channel+"/"+sender...))
	return h[:]
}

func (l *lab) slot(ctx sdk.Context, a common.Address, i int64) common.Hash {
	r, err := evmkeeper.NewQueryServer(l.w.K).State(Fresh(ctx, 30_000_000), &evmtypes.QueryStateRequest{ContractAddr: a.Hex(), Key: common.BigToHash(big.NewInt(i)).Hex()})
	Must(err)
	return common.HexToHash(r.Value)
}

func pack(sel string, args ...any) []byte {
	out := append([]byte{}, crypto.Keccak256([]byte(sel))[:4]...)
	for _, a := range args {
		switch x := a.(type) {
		case common.Address:
			out = append(out, common.LeftPadBytes(x.Bytes(), 32)...)
		case *big.Int:
			out = append(out, common.LeftPadBytes(x.Bytes(), 32)...)
		case int:
			out = append(out, common.LeftPadBytes(big.NewInt(int64(x)).Bytes(), 32)...)
		}
	}
	return out
}

func (l *lab) ask(ctx sdk.Context, to common.Address, in []byte) []byte {
	ret, err := l.w.K.EVMStaticCall(Fresh(ctx, 30_000_000), u3, to, in, nil)
	if err != nil {
		return nil
	}
	return ret
}

// number is the number of a voucher.
func number(id string) *big.Int {
	h := sha256.Sum256([]byte(id))
	return new(big.Int).SetBytes(h[:])
}
