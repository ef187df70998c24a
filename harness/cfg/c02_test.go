package cfg

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"time"

	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// TestC02 decides who can deploy contracts.
func TestC02(t *testing.T) {
	Run("C02", "bounded", func(c *Check) {
		longAcc := sdk.AccAddress(append(make([]byte, 12), Addr("cfg-long").Bytes()...))
		for i := range 12 {
			longAcc[i] = byte(i + 1)
		}
		acc := map[string]sdk.AccAddress{"alice": alice.Acc(), "bob": bob.Acc(), "carol": carol.Acc(), "long": longAcc, "contract": proxy.Bytes()}
		spell := func(n string) string {
			switch {
			case strings.HasSuffix(n, "^"):
				return strings.ToUpper(acc[strings.TrimSuffix(n, "^")].String())
			}
			return acc[n].String()
		}
		who := func(n string) string { return strings.TrimSuffix(n, "^") }
		lists := [][]string{{}, {"alice"}, {"bob"}, {"carol"}, {"alice", "bob"}, {"bob", "alice"}, {"carol", "bob", "alice"}, {"alice^"}, {"bob^", "alice"}, {"long"}, {"alice", "long"}, {"contract"}, {"alice", "alice"}, {"bob", "bob", "contract"}}
		type deploy struct {
			name, who string
			run       func(l *lab, ctx sdk.Context) error
		}
		var acts []deploy
		creates := func(sender string, salt uint64) map[string]sdk.Msg {
			return map[string]sdk.Msg{
				"create":  &evmtypes.MsgCreate{Sender: sender, Code: hexOf(initCode), Value: zero()},
				"create2": &evmtypes.MsgCreate2{Sender: sender, Code: hexOf(initCode), Value: zero(), Salt: salt},
			}
		}
		res := func(d Delivered) error {
			if d.Err != "" {
				return fmt.Errorf("%s", d.Err)
			}
			return nil
		}
		keys := map[string]*Key{"alice": alice, "bob": bob, "carol": carol}
		for _, kind := range []string{"create", "create2"} {
			for _, n := range []string{"alice", "bob", "carol", "long", "contract", "alice^", "bob^"} {
				acts = append(acts, deploy{kind + " by " + n, who(n), func(l *lab, ctx sdk.Context) error {
					_, err := l.handle(ctx, creates(spell(n), l.salt)[kind])
					return err
				}})
			}
			for _, n := range []string{"alice", "bob", "carol"} {
				acts = append(acts, deploy{"signed " + kind + " by " + n, n, func(l *lab, ctx sdk.Context) error {
					return res(l.w.DeliverOn(ctx, l.sign(ctx, keys[n], creates(acc[n].String(), l.salt)[kind])))
				}})
			}
			// in the name of alice, by bob, whom she authorised; and the other way round
			for _, p := range [][2]string{{"alice", "bob"}, {"bob", "alice"}} {
				acts = append(acts, deploy{kind + " by " + p[0] + " run by " + p[1], p[0], func(l *lab, ctx sdk.Context) error {
					m := creates(acc[p[0]].String(), l.salt)[kind]
					exp := time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC)
					g, err := authz.NewMsgGrant(acc[p[0]], acc[p[1]], authz.NewGenericAuthorization(sdk.MsgTypeURL(m)), &exp)
					Must(err)
					if _, err := l.handle(ctx, g); err != nil {
						panic(HarnessFault("grant: " + err.Error()))
					}
					ex := authz.NewMsgExec(acc[p[1]], []sdk.Msg{m})
					return res(l.w.DeliverOn(ctx, l.sign(ctx, keys[p[1]], &ex)))
				}})
			}
			// by a contract, through a message it queues
			acts = append(acts, deploy{kind + " queued by a contract", "contract", func(l *lab, ctx sdk.Context) error {
				body := fmt.Sprintf(`{"@type":"/minievm.evm.v1.Msg%s","sender":"%s","code":"%s","value":"0"`, map[string]string{"create": "Create", "create2": "Create2"}[kind], acc["contract"], hexOf(initCode))
				if kind == "create2" {
					body += fmt.Sprintf(`,"salt":"%d"`, l.salt)
				}
				abi, err := i_cosmos.ICosmosMetaData.GetAbi()
				Must(err)
				in, err := abi.Pack("execute_cosmos", body+"}")
				Must(err)
				return res(l.w.DeliverOn(ctx, l.sign(ctx, bob, &evmtypes.MsgCall{Sender: bob.Acc().String(), ContractAddr: proxy.Hex(), Input: hexOf(in), Value: zero()})))
			}})
			// after another message of the same transaction
			acts = append(acts, deploy{kind + " by bob beside alice's", "alice+bob", func(l *lab, ctx sdk.Context) error {
				tx := alice.SignSDK(TxOpts{Msgs: []sdk.Msg{creates(acc["alice"].String(), l.salt)[kind], creates(acc["bob"].String(), l.salt)[kind]}, Gas: 5_000_000, Seq: l.seq(ctx, alice), AccNum: l.num(ctx, alice), Key2: bob, Seq2: l.seq(ctx, bob), AccNum2: l.num(ctx, bob)})
				return res(l.w.DeliverOn(ctx, tx))
			}})
		}
		for _, n := range []string{"alice", "bob"} {
			for _, typ := range []int{0, 1, 2} {
				acts = append(acts, deploy{fmt.Sprintf("Ethereum creation (type %d) by %s", typ, n), n, func(l *lab, ctx sdk.Context) error {
					k := keys[n]
					var td coretypes.TxData
					switch typ {
					case 0:
						td = &coretypes.LegacyTx{Nonce: l.seq(ctx, k), GasPrice: big.NewInt(0), Gas: 5_000_000, Value: big.NewInt(0), Data: initCode}
					case 1:
						td = &coretypes.AccessListTx{ChainID: EthChainID(), Nonce: l.seq(ctx, k), GasPrice: big.NewInt(0), Gas: 5_000_000, Value: big.NewInt(0), Data: initCode}
					default:
						td = &coretypes.DynamicFeeTx{ChainID: EthChainID(), Nonce: l.seq(ctx, k), GasFeeCap: big.NewInt(0), GasTipCap: big.NewInt(0), Gas: 5_000_000, Value: big.NewInt(0), Data: initCode}
					}
					tx, err := l.w.EthToSDK(ctx, k.SignEth(td))
					if err != nil {
						panic(HarnessFault(err.Error()))
					}
					return res(l.w.DeliverOn(ctx, tx))
				}})
			}
		}
		c.Note("lists", fmt.Sprint(lists))
		c.Note("deployments", len(acts))

		contracts := func(l *lab, ctx sdk.Context) map[common.Address]bool {
			out := map[common.Address]bool{}
			for _, acc := range l.w.App.AccountKeeper.GetAllAccounts(ctx) {
				if _, ok := acc.(*evmtypes.ContractAccount); ok {
					out[common.BytesToAddress(acc.GetAddress())] = true
				}
			}
			return out
		}
		set := func(l *lab, ctx sdk.Context, list []string) error {
			p := l.params(ctx)
			p.AllowedPublishers = nil
			for _, n := range list {
				p.AllowedPublishers = append(p.AllowedPublishers, spell(n))
			}
			_, err := l.handle(ctx, &evmtypes.MsgUpdateParams{Authority: l.auth, Params: p})
			return err
		}
		want := crypto.Keccak256Hash(runCode)
		one := func(l *lab, ctx sdk.Context, list []string, d deploy) string {
			may := func(n string) bool {
				if len(list) == 0 {
					return true
				}
				for _, x := range list {
					if who(x) == n {
						return true
					}
				}
				return false
			}
			allowed, n := true, 0
			for _, x := range strings.Split(d.who, "+") {
				allowed = allowed && may(x)
				n++
			}
			pre := contracts(l, ctx)
			err := d.run(l, ctx)
			post := contracts(l, ctx)
			fresh := 0
			for a := range post {
				if !pre[a] {
					fresh++
					acc := l.w.App.AccountKeeper.GetAccount(ctx, a.Bytes()).(*evmtypes.ContractAccount)
					if common.BytesToHash(acc.CodeHash) != want {
						return fmt.Sprintf("%s: the new contract %s holds other code", d.name, a)
					}
				}
			}
			c.Outcome(fmt.Sprintf("allowed=%v deployed=%d", allowed, fresh))
			switch {
			case allowed && err != nil:
				return fmt.Sprintf("%s was refused although allowed: %v", d.name, err)
			case allowed && fresh != n:
				return fmt.Sprintf("%s made %d contracts", d.name, fresh)
			case !allowed && err == nil:
				return fmt.Sprintf("%s succeeded although not allowed", d.name)
			case !allowed && fresh != 0:
				return fmt.Sprintf("%s left a contract although not allowed", d.name)
			}
			return ""
		}
		type item struct {
			lists []int
			act   []int
		}
		play := func(l *lab, it item) string {
			ctx := Branch(l.base)
			for i, x := range it.lists {
				l.salt = uint64(i + 1)
				if err := set(l, ctx, lists[x]); err != nil {
					return fmt.Sprintf("the publishers %v were refused: %v", lists[x], err)
				}
				if d := one(l, ctx, lists[x], acts[it.act[i]]); d != "" {
					return fmt.Sprintf("publishers %v: %s", lists[x], d)
				}
			}
			return ""
		}
		Parallel(c, 0, func(int) *lab { return newLab() }, func(yield func(item) bool) {
			for i := range lists {
				for a := range acts {
					if !yield(item{[]int{i}, []int{a}}) {
						return
					}
				}
			}
			// a list replaced by another one: every pair of lists, with a deployment under each (in the
			// quick tier, the same one)
			for i := range lists {
				for j := range lists {
					for a := range acts {
						for b := range acts {
							if !c.Thorough() && a != b {
								continue
							}
							if !yield(item{[]int{i, j}, []int{a, b}}) {
								return
							}
						}
					}
				}
			}
		}, func(l *lab, it item) {
			if c.Expired() {
				return
			}
			s := ""
			for i := range it.lists {
				s += fmt.Sprintf("%v %s; ", lists[it.lists[i]], acts[it.act[i]].name)
			}
			c.Exec(s)
			c.Trans(len(it.lists))
			c.State(fmt.Sprint(it.lists))
			c.Sample(s)
			if d := play(l, it); d != "" {
				sig := "publisher"
				if strings.Contains(d, "^") {
					sig = "publisher-spelling"
				}
				c.Violate(sig, d, s, func() string { return play(l, it) })
			} else {
				c.Validated(len(it.lists))
			}
		})
	})
}
