package evm

import (
	"fmt"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"

	. "github.com/initia-labs/minievm/verifmc/core"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// glab measures executions under gas limits.
type glab struct {
	*lab
	pre uint64 // gas the chain takes before the EVM starts
}

func newGLab(c *Check) *glab {
	g := &glab{lab: newLab(c, 2)}
	p := prog(fr("stop", Op{K: "gas"}), 2)
	r := g.exec(p, "call", 5_000_000)
	ref := g.refExec(p, "call", 5_000_000)
	if !r.ok || len(r.logs) != 1 || len(ref.Logs) != 1 {
		panic("gas probe failed: " + r.err)
	}
	g.pre = common.BytesToHash(ref.Logs[0].Data).Big().Uint64() - common.BytesToHash(r.logs[0].Data).Big().Uint64()
	return g
}

type gres struct {
	ok       bool
	err      string
	oog      bool // the transaction's own meter ran out
	consumed uint64
	logs     []Log
}

func (l *glab) frameOf(p *Program) *Frame { return p.Root }

func (l *glab) refExec(p *Program, kind string, gas uint64) Result {
	if p.Code == nil {
		p.Compile()
	}
	ref := l.ref.Copy()
	if kind != "call" {
		salt := uint64(3)
		ps := &salt
		if kind == "create" {
			ps = nil
		}
		return ref.Exec(Caller, nil, InitCode(p.Root), 0, gas, ps)
	}
	for i := range p.Addrs {
		ref.DB.SetCode(p.Addrs[i], p.Code[i])
	}
	ref.DB.Finalise(true)
	a := ConAddr(0)
	return ref.Exec(Caller, &a, []byte{0}, 0, gas, nil)
}

func (l *glab) exec(p *Program, kind string, gas uint64) (r gres) {
	if p.Code == nil {
		p.Compile()
	}
	ctx := Branch(l.base)
	if kind == "call" {
		for i := range p.Addrs {
			l.w.SetCode(ctx, p.Addrs[i], p.Code[i])
		}
	}
	ctx = Fresh(ctx, gas)
	var err error
	var logs evmtypes.Logs
	pan := Try(func() {
		switch kind {
		case "call":
			_, logs, err = l.w.K.EVMCall(ctx, Caller, ConAddr(0), []byte{0}, nil, nil)
		case "create":
			_, _, logs, err = l.w.K.EVMCreate(ctx, Caller, InitCode(p.Root), nil, nil)
		case "create2":
			_, _, logs, err = l.w.K.EVMCreate2(ctx, Caller, InitCode(p.Root), nil, 3, nil)
		}
	})
	r.consumed = ctx.GasMeter().GasConsumed()
	r.err = pan
	r.oog = pan != ""
	if pan == "" && err != nil {
		r.err = err.Error()
	}
	r.ok = pan == "" && err == nil
	if r.ok {
		r.logs = ConvLogs(logs)
	}
	return r
}

// judge compares one execution under one gas limit with the rules.
func (l *glab) judge(p *Program, kind string, gas uint64) string {
	got := l.exec(p, kind, gas)
	l.c.Trans(1)
	if got.oog && !strings.HasPrefix(got.err, "out of gas") {
		return "panic " + got.err
	}
	if !got.oog && got.consumed > gas {
		return fmt.Sprintf("consumed %d of %d without running out", got.consumed, gas)
	}
	if gas <= l.pre {
		if got.ok {
			return fmt.Sprintf("succeeded on %d gas, less than the chain's own work", gas)
		}
		return ""
	}
	want := l.refExec(p, kind, gas-l.pre)
	l.c.Outcome(fmt.Sprintf("%s ok=%v oog=%v %.20s", kind, got.ok, got.oog, want.Err))
	if got.ok != want.OK {
		if want.OK && gas-l.pre-want.Gas < 40_000 {
			return "" // the chain's own metered bookkeeping after the EVM may not fit
		}
		return fmt.Sprintf("success=%v (%s), rules say %v (%s)", got.ok, got.err, want.OK, want.Err)
	}
	used := l.pre + want.Gas
	if got.ok {
		if got.consumed < used || got.consumed > used+40_000 {
			return fmt.Sprintf("success consumed %d, the work done costs %d", got.consumed, used)
		}
		if kind == "call" && got.consumed != used+l.over-l.pre {
			return fmt.Sprintf("success consumed %d, rules say %d", got.consumed, used+l.over-l.pre)
		}
		if !LogsEqual(got.logs, want.Logs) {
			return fmt.Sprintf("gas seen inside differs: %s, rules %s", LogsString(got.logs), LogsString(want.Logs))
		}
		return ""
	}
	charged := got.consumed
	if charged > gas {
		charged = gas
	}
	if charged < used {
		return fmt.Sprintf("failure (%s) consumed %d, it burned %d", want.Err, charged, used)
	}
	if want.Err == "execution reverted" && charged != used {
		return fmt.Sprintf("revert consumed %d, rules say %d", charged, used)
	}
	return ""
}

func TestE09(t *testing.T) {
	Run("E09", "model_checking", func(c *Check) {
		g := Op{K: "gas"}
		G := func(k string, to int, gas uint64) Op { return Op{K: k, To: to, Gas: gas} }
		all := uint64(1) << 40
		mk := func(i int) *glab { return newGLab(c) }
		type item struct {
			p    *Program
			kind string
			gas  uint64 // 0: derive the grid
		}
		var grid func(l *glab, it item)
		grid = func(l *glab, it item) {
			need := l.refExec(it.p, it.kind, 3_000_000)
			n := l.pre + need.Gas
			gs := []uint64{3_000_000}
			if need.Gas < 2_900_000 {
				gs = append(gs, n+60_000, n, n-1, n-n/8, l.pre+need.Gas/2, l.pre+1)
			} else {
				gs = append(gs, 1_000_000, 200_000, l.pre+30_000, l.pre+1)
			}
			gs = append(gs, l.pre, l.pre/2, 1)
			for _, gas := range gs {
				name := fmt.Sprintf("%s gas=%d {%s}", it.kind, gas, it.p.Root)
				l.c.Exec(name)
				if d := l.judge(it.p, it.kind, gas); d != "" {
					l.c.Violate("gas/"+it.kind, name+" => "+d, name, func() string { return newGLab(c).judge(it.p, it.kind, gas) })
					return
				}
				l.c.State(name)
				l.c.Validated(1)
			}
		}
		// 0. tiny amounts of gas never turn into large ones
		{
			l := mk(0)
			for _, kind := range []string{"call", "delegate", "callcode"} {
				for gas := uint64(1); gas <= 1200; gas++ {
					child := fr("stop", g)
					name := fmt.Sprintf("%s with %d gas", kind, gas)
					c.Exec(name)
					p := prog(fr("stop", g, quiet(Op{K: kind, To: 1, Gas: gas, Sub: child}), g), 2)
					r := l.exec(p, "call", 1_000_000)
					var gs []uint64
					for _, x := range r.logs {
						gs = append(gs, common.BytesToHash(x.Data).Big().Uint64())
					}
					in := uint64(0)
					if len(gs) == 3 {
						in, gs = gs[1], []uint64{gs[0], gs[2]}
					}
					if in > gas || r.consumed > 1_000_000 || r.ok && (len(gs) != 2 || gs[0] > 1_000_000 || gs[1] > gs[0]) {
						c.Violate("tiny-gas", fmt.Sprintf("%s: the callee saw %d gas, the caller's went from/to %v of 1000000, consumed %d", name, in, gs, r.consumed), name, nil)
						return
					}
				}
				for gas := uint64(0); gas <= 400; gas++ {
					p := prog(fr("stop"), 2)
					r := l.exec(p, "call", l.pre+gas)
					c.Exec(fmt.Sprintf("top with %d gas", gas))
					if r.ok && r.consumed > l.pre+gas {
						c.Violate("tiny-gas", fmt.Sprintf("an execution with %d gas consumed %d", l.pre+gas, r.consumed), gas, nil)
						return
					}
				}
			}
		}
		// 1. call trees
		ta := treeAlpha{
			leaves: []Op{g, S(0, -1), T(0, -1), S(0, 0)},
			comps:  []Op{G("call", 1, 30_000), G("call", 0, all), G("static", 1, all), G("delegate", 1, all), G("call", 1, 2_000)},
			ends:   []string{"stop", "revert", "invalid", "oog"},
			tops:   []string{"stop", "revert", "invalid", "oog", "underflow", "badjump"}}
		n := 0
		Parallel(c, 0, mk, func(yield func(item) bool) {
			_ = ta.programs(0, Pick(c, 2, 3), 2, false, func(p *Program) bool { n++; return yield(item{p, "call", 0}) })
		}, grid)
		deep := treeAlpha{leaves: []Op{g}, comps: []Op{G("call", 1, all), G("call", 0, 50_000)}, ends: []string{"stop", "revert", "oog"}, tops: []string{"stop"}}
		Parallel(c, 0, mk, func(yield func(item) bool) {
			_ = deep.programs(3, Pick(c, 4, 5), 2, false, func(p *Program) bool { n++; return yield(item{p, "call", 0}) })
		}, grid)
		// 2. creations
		inits := treeAlpha{leaves: []Op{g, S(0, -1), T(0, -1)}, ends: []string{"stop"}, tops: []string{"stop", "revert", "invalid", "oog"}}
		Parallel(c, 0, mk, func(yield func(item) bool) {
			_ = inits.programs(0, 2, 2, false, func(p *Program) bool {
				p.Root.Run = []*Frame{fr("stop", S(0, 1), S(1, 1), L(0))}
				n++
				return yield(item{p, "create", 0}) && yield(item{p, "create2", 0})
			})
		}, grid)
		// every gas limit across the window in which a creation pays for its code
		win := prog(fr("stop", g), 2)
		win.Root.Run = []*Frame{fr("stop", S(0, 1))}
		Parallel(c, 0, mk, func(yield func(item) bool) {
			l := mk(0)
			n := l.pre + l.refExec(win, "create", 3_000_000).Gas
			for d := uint64(0); d < Pick(c, uint64(3000), 20_000); d++ {
				if !yield(item{win, "create", n - 1500 + d}) {
					return
				}
			}
		}, func(l *glab, it item) {
			p := prog(it.p.Root, 2)
			p.Root.Run = it.p.Root.Run
			if p.Root.Run == nil {
				p.Root.Run = []*Frame{fr("stop", S(0, 1))}
			}
			name := fmt.Sprintf("window gas=%d", it.gas)
			l.c.Exec(name)
			if d := l.judge(p, "create", it.gas); d != "" {
				l.c.Violate("gas/window", name+" => "+d, name, nil)
				return
			}
			l.c.Validated(1)
		})
		c.Note("programs", n)

		// 3. system contracts: every gas amount around what a method needs, seen by the calling contract
		type sys struct {
			op  Op
			gas uint64
		}
		menu := []Op{
			view("is_blocked_address", Caller), view("is_module_address", Caller), view("to_cosmos_address", Caller), view("to_evm_address", Acc(Caller).String()),
			view("to_denom", common.Address{1}), view("to_denom", Addr("nothing")), view("to_erc20", FeeDenom), view("to_erc20", "nosuch"),
			view("query_cosmos", orc+"GetAllCurrencyPairs", "{}"), view("query_cosmos", orc+"GetPrices", `{"currency_pair_ids":[]}`), view("query_cosmos", "/no", "{}"),
			opReg(), opStore("X"), opStore("H"), opIsStore("H"), opSend("A", "X", 3), opSend("B", "X", 3),
			raw("rawcall", cosmosAddr, "junk", []byte{1, 2, 3, 4}), raw("rawcall", cosmosAddr, "short", []byte{1}), raw("rawcall", registryAddr, "badargs", pack(false, "register_erc20_store", common.Address{})[:20]),
		}
		// measure: gas before, call with the given gas, gas after
		measure := func(l *glab, o Op, gas uint64) (spent uint64, ok bool, err string) {
			o.Gas = gas
			p := prog(fr("stop", g, o, g), 2)
			r := l.exec(p, "call", 3_000_000)
			if !r.ok || len(r.logs) < 2 {
				return 0, false, "outer failed: " + r.err
			}
			var gs []uint64
			for _, x := range r.logs {
				if len(x.Topics) == 1 && x.Topics[0].Big().Uint64() == 2 {
					ok = x.Data[31] == 1
				} else if len(x.Topics) == 1 {
					gs = append(gs, common.BytesToHash(x.Data).Big().Uint64())
				}
			}
			if len(gs) != 2 || gs[1] > gs[0] {
				return 0, ok, fmt.Sprintf("the caller's gas went from %v", gs)
			}
			return gs[0] - gs[1], ok, ""
		}
		floor := map[string]uint64{}
		_ = floor
		k := 0
		Parallel(c, 0, mk, func(yield func(Op) bool) {
			for _, o := range menu {
				if !yield(o) {
					return
				}
			}
		}, func(l *glab, o Op) {
			bad := func(f string, a ...any) {
				l.c.Violate("system-contract-gas", o.Note+" => "+fmt.Sprintf(f, a...), o.Note, nil)
			}
			base, ok0, e := measure(l, o, 1) // burns nothing: overhead of the probe itself with a failing call
			if e != "" {
				bad(e)
				return
			}
			_ = ok0
			full, ok, e := measure(l, o, 2_000_000)
			if e != "" {
				bad(e)
				return
			}
			// the least gas that works, by exhaustive scan
			first := uint64(0)
			step := uint64(1)
			lim := uint64(60_000)
			prevOK := false
			for gas := uint64(1); gas <= lim; gas += step {
				sp, okg, e := measure(l, o, gas)
				k++
				l.c.Trans(1)
				l.c.Exec(fmt.Sprintf("%s@%d", o.Note, gas))
				if e != "" {
					bad("gas %d: %s", gas, e)
					return
				}
				if okg && !ok {
					bad("succeeds with %d gas but not with more", gas)
					return
				}
				if prevOK && !okg {
					bad("fails with %d gas though less was enough", gas)
					return
				}
				if okg && first == 0 {
					first = gas
				}
				prevOK = okg
				if !okg && sp < gas {
					bad("given %d gas it failed and burned only %d", gas, sp)
					return
				}
				if !okg && sp > base+gas+20_000 {
					bad("given %d gas it burned %d", gas, sp)
					return
				}
				if okg && sp != full {
					bad("costs %d when given %d gas and %d when given plenty", sp, gas, full)
					return
				}
				if okg && gas > first+30 {
					break
				}
				if gas >= 3000 && !okg && step == 1 && !ok {
					step = 4999
				} else if gas >= 2000 && step == 1 && !okg {
					// jump close to the measured cost
					step = 1
					if full > base && full-base > gas+3000 {
						gas = full - base - 3000
					}
				}
			}
			if ok && first == 0 {
				bad("never succeeded up to %d gas but did with plenty", lim)
				return
			}
			if ok && first < 100 {
				bad("did its work for %d gas", first)
				return
			}
			l.c.Sample(fmt.Sprintf("%s needs %d", o.Note, first))
			l.c.Validated(1)
		})
		c.Note("system_contract_gas_points", k)
		c.Assume("go-ethereum's interpreter defines the gas rules; the gas the chain takes before and after the interpreter is measured on an empty program")
	})
}
