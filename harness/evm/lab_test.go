package evm

import (
	"bytes"
	"fmt"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"

	. "github.com/initia-labs/minievm/verifmc/core"
)

// lab is one worker's pair of the real application and the reference state.
type lab struct {
	c    *Check
	w    *World
	base sdk.Context
	ref  *Ref
	fee  common.Address
	ncon int
	over uint64 // gas the chain spends outside the EVM, measured on an empty program
}

var startBal = []int64{100, 50, 0}

func newLab(c *Check, ncon int) *lab {
	w := NewWorld(WorldCfg{})
	l := &lab{c: c, w: w, base: Branch(w.Base), ncon: ncon}
	l.ref = NewRef(RefConfig(EthChainID()), RefBlock(w.Base))
	l.ref.Extra = []common.Address{common.HexToAddress("0xf1"), common.HexToAddress("0xf2")}
	var err error
	l.fee, err = w.K.GetContractAddrByDenom(w.Base, FeeDenom)
	Must(err)
	w.FundAcc(l.base, Caller, FeeDenom, 1000)
	for i := 0; i < 2; i++ {
		w.EnsureAcc(l.base, ExtAddr(i))
	}
	for i := 0; i < ncon; i++ {
		w.SetCode(l.base, ConAddr(i), []byte{0})
		if startBal[i] > 0 {
			w.Fund(l.base, ConAddr(i), FeeDenom, startBal[i])
		}
	}
	seed := func(a common.Address, n uint64, bal int64) {
		l.ref.DB.CreateAccount(a)
		l.ref.DB.SetNonce(a, n)
		l.ref.DB.AddBalance(a, uint256.NewInt(uint64(bal)), tracing.BalanceChangeUnspecified)
	}
	acc := w.App.AccountKeeper.GetAccount(l.base, Acc(Caller))
	seed(Caller, acc.GetSequence(), 1000)
	for i := 0; i < ncon; i++ {
		seed(ConAddr(i), 1, startBal[i])
		l.ref.DB.SetCode(ConAddr(i), []byte{0})
	}
	to := Addr("nobody")
	o1 := l.ref.Copy().Exec(Caller, &to, []byte{0}, 0, 1_000_000, nil)
	o2 := w.Exec(Branch(l.base), Caller, &to, []byte{0}, 0, 1_000_000, nil)
	l.over = o2.Gas - o1.Gas
	return l
}

// step is one execution of a history.
type step struct {
	Kind  string // "" (call of a program), create, create2, send, created (call of the last created contract), prefund
	Prog  *Program
	Frame *Frame
	Salt  uint64
	To    common.Address
	Run   byte
	Value uint64
	Gas   uint64
}

func (s step) String() string {
	v := ""
	if s.Value != 0 {
		v = fmt.Sprintf("(v=%d)", s.Value)
	}
	if s.Gas != 0 {
		v += fmt.Sprintf("(gas=%d)", s.Gas)
	}
	switch s.Kind {
	case "create", "create2":
		r := ""
		for _, x := range s.Frame.Run {
			r += " | " + x.String()
		}
		return fmt.Sprintf("%s%s{%s%s}", s.Kind, v, s.Frame, r)
	case "send":
		return fmt.Sprintf("send%s->%x", v, s.To[:3])
	case "created":
		return fmt.Sprintf("callcreated%s#%d", v, s.Run)
	case "prefund":
		return fmt.Sprintf("prefund-create2-address%s", v)
	}
	return "tx" + v + "{" + s.Prog.Root.String() + "}"
}

// usesValue tells whether gas may legitimately differ (the token contract's own storage refunds).
func usesValue(f *Frame) bool {
	for _, o := range f.Ops {
		if o.Value != 0 || o.K == "sd" {
			return true
		}
		if o.Sub != nil {
			if usesValue(o.Sub) {
				return true
			}
			for _, r := range o.Sub.Run {
				if usesValue(r) {
					return true
				}
			}
		}
	}
	return false
}

func nops(f *Frame) int {
	n := 1
	for _, o := range f.Ops {
		n++
		if o.Sub != nil {
			n += nops(o.Sub)
			for _, r := range o.Sub.Run {
				n += nops(r)
			}
		}
	}
	return n
}

const slots = 3

// history runs a history on both sides and compares everything observable; "" when equal.
func (l *lab) history(steps []step, sig *string) string {
	ctx := Branch(l.base)
	ref := l.ref.Copy()
	var canon bytes.Buffer
	bad := func(s, f string, a ...any) string { *sig = s; return fmt.Sprintf(f, a...) }
	for si, st := range steps {
		gas := st.Gas
		if gas == 0 {
			gas = 12_000_000
		}
		var to *common.Address
		var salt *uint64
		input := []byte{0}
		switch st.Kind {
		case "":
			p := st.Prog
			if p.Code == nil {
				p.Compile()
			}
			for i := range p.Addrs {
				l.w.SetCode(ctx, p.Addrs[i], p.Code[i])
				ref.DB.SetCode(p.Addrs[i], p.Code[i])
			}
			ref.DB.Finalise(true)
			x := ConAddr(0)
			to = &x
			l.c.Trans(nops(p.Root))
		case "create", "create2":
			input = InitCode(st.Frame)
			if st.Kind == "create2" {
				salt = &st.Salt
			}
			l.c.Trans(nops(st.Frame))
		case "send":
			to = &st.To
			input = nil
		case "prefund":
			// the address a create2 of frame/salt by Caller will get
			x := crypto.CreateAddress2(Caller, uint256.NewInt(st.Salt).Bytes32(), crypto.Keccak256(InitCode(st.Frame)))
			to = &x
			input = nil
		case "created":
			cr := ref.Created
			if len(cr) == 0 {
				continue
			}
			x := cr[len(cr)-1]
			to = &x
			input = []byte{st.Run}
		}
		before := ""
		want := ref.Exec(Caller, to, input, st.Value, gas-l.over, salt)
		if !want.OK {
			before = l.w.DigestStores(ctx)
		}
		got := l.w.Exec(ctx, Caller, to, input, st.Value, gas, salt)
		l.c.Trans(1)
		if want.OK && want.Created != got.Created {
			return bad("created-address", "execution %d: created %x, reference %x", si, got.Created, want.Created)
		}
		if want.OK && salt == nil && to == nil || salt != nil {
			ref.Created = append(ref.Created, want.Created)
		}
		if want.OK && !got.OK && strings.Contains(got.Err, "gas consumption") && want.Gas+1_000_000 > gas {
			// nearly all gas was burnt inside: the chain's own bookkeeping, which is metered too, may not fit
			l.c.Outcome("gas-boundary (not compared)")
			break
		}
		if got.OK != want.OK {
			return bad("outcome", "execution %d: reference success=%v (%s), chain success=%v (%s)", si, want.OK, want.Err, got.OK, got.Err)
		}
		if want.OK && !bytes.Equal(got.Ret, want.Ret) {
			return bad("return-data", "execution %d: return data %x, reference %x", si, got.Ret, want.Ret)
		}
		gl := DropLogs(got.Logs, l.fee)
		if !LogsEqual(gl, want.Logs) {
			if st.Prog != nil && LogsEqual(mask(gl, st.Prog), mask(want.Logs, st.Prog)) {
				return bad("return-data-lost-after-balance-read", "execution %d: logs %s, reference %s", si, LogsString(gl), LogsString(want.Logs))
			}
			return bad("logs", "execution %d: logs %s, reference %s", si, LogsString(gl), LogsString(want.Logs))
		}
		if !want.Touched && got.Gas != want.Gas+l.over && st.Gas == 0 {
			return bad("gas", "execution %d: gas %d, reference %d (%s %s)", si, got.Gas, want.Gas, got.Err, want.Err)
		}
		if !want.OK {
			if after := l.w.DigestStores(ctx); after != before {
				return bad("failed-execution-left-state", "execution %d failed but changed stores", si)
			}
		}
		addrs := []common.Address{Caller, ExtAddr(0), ExtAddr(1)}
		for i := 0; i < l.ncon; i++ {
			addrs = append(addrs, ConAddr(i))
		}
		addrs = append(addrs, ref.AllCreated()...)
		if to != nil && st.Kind == "prefund" {
			addrs = append(addrs, *to)
		}
		fmt.Fprintf(&canon, "|%v %x %d", got.OK, got.Ret, len(gl))
		for _, a := range addrs {
			g, r := l.w.ReadAcct(ctx, a, slots), ref.ReadAcct(a, slots)
			if g.String() != r.String() {
				s := "state"
				if g.Balance != r.Balance {
					s = "balance"
				}
				return bad(s, "execution %d: account %x is {%s}, reference {%s}", si, a[:4], g, r)
			}
			canon.WriteString(g.String())
		}
		l.c.Outcome(fmt.Sprintf("ok=%v logs=%d created=%d err=%.24s", got.OK, len(gl), len(ref.AllCreated()), want.Err))
	}
	l.c.State(canon.String())
	return ""
}

// mask blanks the return-data probes that follow a balance read.
func mask(in []Log, p *Program) []Log {
	out := append([]Log{}, in...)
	for i, x := range out {
		if len(x.Topics) == 1 && p.RdsTok[int(x.Topics[0].Big().Int64())] {
			out[i].Data = nil
		}
	}
	return out
}

func (l *lab) run(prefix string, steps []step) {
	name := ""
	for _, s := range steps {
		if name != "" {
			name += " ; "
		}
		name += s.String()
	}
	l.c.Exec(name)
	var sig string
	if d := l.history(steps, &sig); d != "" {
		if sig != "return-data-lost-after-balance-read" {
			sig = prefix + sig
		}
		l.c.Violate(sig, name+" => "+d, name, func() string { var s string; return l.history(steps, &s) })
		return
	}
	l.c.Validated(1)
}

// ---- generator of call trees

type treeAlpha struct {
	leaves []Op
	comps  []Op     // composite templates (Sub is filled)
	ends   []string // endings of sub frames
	tops   []string
}

// genSeq yields every op sequence with exactly n nodes.
func (t treeAlpha) genSeq(n int, yield func([]Op) bool) bool {
	if n == 0 {
		return yield(nil)
	}
	for _, lf := range t.leaves {
		if !t.genSeq(n-1, func(rest []Op) bool { return yield(append([]Op{lf}, rest...)) }) {
			return false
		}
	}
	for _, cp := range t.comps {
		for inner := 0; inner <= n-1; inner++ {
			ok := t.genSeq(inner, func(body []Op) bool {
				for _, e := range t.ends {
					e := e
					if !t.genSeq(n-1-inner, func(rest []Op) bool {
						o := cp
						o.Sub = &Frame{Ops: body, End: e}
						if cp.Sub != nil {
							o.Sub.Run = cp.Sub.Run
						}
						return yield(append([]Op{o}, rest...))
					}) {
						return false
					}
				}
				return true
			})
			if !ok {
				return false
			}
		}
	}
	return true
}

// clone deep-copies a frame and numbers written values.
func clone(f *Frame, n *int) *Frame {
	g := &Frame{End: f.End}
	for _, o := range f.Ops {
		if (o.K == "sstore" || o.K == "tstore") && o.Val < 0 {
			*n++
			o.Val = *n
		}
		if o.Sub != nil {
			o.Sub = clone(o.Sub, n)
		}
		g.Ops = append(g.Ops, o)
	}
	for _, r := range f.Run {
		g.Run = append(g.Run, clone(r, n))
	}
	return g
}

func (t treeAlpha) programs(lo, hi, ncon int, probe bool, yield func(*Program) bool) bool {
	tops := t.tops
	if tops == nil {
		tops = []string{"stop"}
	}
	for n := lo; n <= hi; n++ {
		for _, e := range tops {
			if !t.genSeq(n, func(ops []Op) bool {
				k := 10
				return yield(&Program{Root: clone(&Frame{Ops: ops, End: e}, &k), NCon: ncon, Probe: probe})
			}) {
				return false
			}
		}
	}
	return true
}

func hasComp(ops []Op) bool {
	for _, o := range ops {
		if o.Sub != nil {
			return true
		}
	}
	return false
}
