package bank

import (
	"math/big"
	"testing"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"

	. "github.com/initia-labs/minievm/verifmc/core"
)

func n(i int64) *big.Int { return big.NewInt(i) }

// routes are all ways value moves, for amounts below, at and above the balance.
func routes(l *lab, m *model, wide bool) []op {
	var o []op
	stake, foo, fac, cus, unr := m.toks[0], m.toks[1], m.toks[2], m.toks[3], m.toks[4]
	// bank sends, singly and several coins at once, to oneself, to a long address and back
	for _, p := range [][2]common.Address{{u1, u2}, {u1, u1}, {u1, longA}, {longA, u2}, {u2, u1}, {u1, con}, {u1, modF}} {
		o = append(o, l.opSend(p[0], p[1], coins(m, "stake", 7)), l.opSend(p[0], p[1], coins(m, "fac", 80, "stake", 100)))
	}
	o = append(o,
		l.opSend(u1, u2, coins(m, "stake", 1, "ufoo", 50, "fac", 3, "cus", 40)),
		l.opSend(u1, u2, coins(m, "stake", 1, "ufoo", 51, "fac", 3)),
		l.opSend(u2, longA, coins(m, "unr", 30)),
		l.opSend(longA, u1, coins(m, "unr", 29)),
		// contract routes
		l.opTok(stake, u1, "transfer", u2, n(100)), l.opTok(stake, u1, "transfer", u1, n(100)), l.opTok(stake, u1, "transfer", u2, n(101)),
		l.opTok(fac, u1, "transfer", longA, n(5)), l.opTok(fac, longA, "transfer", u1, n(5)), l.opTok(fac, u1, "transfer", modT, n(5)),
		l.opTok(fac, u1, "approve", u2, n(9)), l.opTok(fac, u2, "transferFrom", u1, u2, n(9)), l.opTok(fac, u2, "transferFrom", u1, con, n(4)), l.opTok(fac, u2, "transferFrom", u1, u1, n(4)),
		l.opTok(fac, u2, "burnFrom", u1, n(6)), l.opTok(fac, u1, "burn", n(80)), l.opTok(fac, u1, "mint", u1, n(1)),
		l.opTok(fac, u1, "mint", u2, new(big.Int).Sub(maxU, n(90))), l.opTok(fac, u1, "mint", u2, maxU),
		l.opTok(cus, u1, "mint", con, n(2)), l.opTok(cus, u1, "burn", n(40)), l.opTok(unr, u2, "transfer", u1, n(30)), l.opTok(foo, u2, "burn", n(20)),
		// value transfers
		l.opNative(u1, u2, 9), l.opNative(u1, u1, 100), l.opNative(u1, con, 100), l.opNative(u2, u1, 9), l.opNative(u1, u2, 101),
		// module routes
		l.opModule("acc2mod", u1, modT, coins(m, "stake", 10, "fac", 8, "cus", 4)), l.opModule("acc2mod", u1, modF, coins(m, "stake", 100)),
		l.opModule("mod2acc", modT, u2, coins(m, "stake", 10)), l.opModule("mod2mod", modT, modF, coins(m, "stake", 10, "fac", 8)), l.opModule("mod2acc", modF, longA, coins(m, "stake", 1)),
		l.opModule("mint", modT, modT, coins(m, "stake", 5, "ufoo", 6)), l.opModule("mint", modT, modT, coins(m, "fac", 5, "stake", 1)),
		l.opModule("burn", modT, modT, coins(m, "stake", 5)), l.opModule("burn", modT, modT, coins(m, "stake", 10, "fac", 8)), l.opModule("burn", modT, modT, coins(m, "cus", 4, "fac", 8)),
		l.opModule("keeper", u1, modF, coins(m, "stake", 3)),
	)
	return o
}

func TestB01(t *testing.T) {
	Run("B01", "model_checking", func(c *Check) {
		WalkOps[*model](c, "conservation", Pick(c, 3, 4), func(int) OpSys[*model] {
			return sys{newLab(c), func(l *lab, m *model) []op { return routes(l, l.m, false) }, func(l *lab, ctx sdk.Context, m *model) string { return l.contracts(ctx, m) }}
		})
	})
}
