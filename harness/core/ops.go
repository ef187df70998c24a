package core

import (
	"fmt"
	"strings"
	"sync"

	sdk "github.com/cosmos/cosmos-sdk/types"
)

// MOp is one operation, on the model and on the real chain.
type MOp[M any] struct {
	Name  string
	Model func(M) (M, bool)           // the new model (a private copy) and whether the operation succeeds
	Real  func(ctx sdk.Context) error // atomic: effects are kept only when it returns nil
	Keep  bool                        // effects (and the model's result) are kept even on failure, as for delivered transactions
}

// OpSys is a system explored by operation sequences.
type OpSys[M any] interface {
	Base() (sdk.Context, M)
	Ops(m M) []MOp[M] // a function of the model alone
	Canon(m M) string
	Digest(ctx sdk.Context) string                        // hidden real state that distinguishes equal models
	Observe(ctx sdk.Context, m M) string                  // "" when the chain shows what the model says
	After(ctx sdk.Context, name string, err error) string // extra judgement of one step
}

// StepOp runs one operation on both sides; the returned context and model are those after it.
func StepOp[M any](s OpSys[M], ctx sdk.Context, m M, op MOp[M]) (sdk.Context, M, string) {
	cc := Branch(ctx)
	tx, commit := cc.CacheContext()
	tx = Fresh(tx, 30_000_000)
	if op.Keep {
		tx = cc
	}
	var err error
	if p := Try(func() { err = op.Real(tx) }); p != "" {
		err = fmt.Errorf("%s", p)
	}
	if err == nil && !op.Keep {
		commit()
	}
	m2, ok := op.Model(m)
	if !ok && !op.Keep {
		m2 = m
	}
	if ok != (err == nil) {
		return cc, m2, fmt.Sprintf("succeeds=%v (%v), expected %v", err == nil, err, ok)
	}
	if d := s.After(cc, op.Name, err); d != "" {
		return cc, m2, d
	}
	return cc, m2, s.Observe(cc, m2)
}

// RunOps replays a sequence by name; it reports the first difference.
func RunOps[M any](s OpSys[M], names []string) string {
	ctx, m := s.Base()
	for i, n := range names {
		found := false
		for _, op := range s.Ops(m) {
			if op.Name == n {
				found = true
				var d string
				ctx, m, d = StepOp(s, ctx, m, op)
				if d != "" {
					return fmt.Sprintf("step %d: %s", i, d)
				}
				break
			}
		}
		if !found {
			return ""
		}
	}
	return ""
}

// WalkOps explores all operation sequences up to depth, judging every step.
// Equal states (model and real digest) are expanded once for the deepest remaining depth.
func WalkOps[M any](c *Check, sig string, depth int, mk func(i int) OpSys[M]) {
	var visited, seen sync.Map
	g := mk(-1)
	_, m0 := g.Base()
	first := len(g.Ops(m0))
	max := 0
	for _, op := range g.Ops(m0) {
		if m, ok := op.Model(m0); ok {
			if n := len(g.Ops(m)); n > max {
				max = n
			}
		}
	}
	if first > max {
		max = first
	}
	type item struct{ i, j int }
	Parallel(c, 0, mk, func(yield func(item) bool) {
		for i := 0; i < first; i++ {
			if depth == 1 {
				if !yield(item{i, -1}) {
					return
				}
				continue
			}
			for j := 0; j < max; j++ {
				if !yield(item{i, j}) {
					return
				}
			}
		}
	}, func(s OpSys[M], it item) {
		ctx, m := s.Base()
		var walk func(ctx sdk.Context, m M, trace []string, only int)
		step := func(ctx sdk.Context, m M, trace []string, op MOp[M]) (sdk.Context, M, bool) {
			tr := append(append([]string{}, trace...), op.Name)
			name := strings.Join(tr, " ; ")
			cc, m2, d := StepOp(s, ctx, m, op)
			if _, dup := seen.LoadOrStore(name, true); dup {
				return cc, m2, d == ""
			}
			c.Exec(name)
			c.Trans(1)
			c.Validated(1)
			if d != "" {
				c.Violate(sig, name+" => "+d, tr, func() string { return RunOps(s, tr) })
				return cc, m2, false
			}
			c.State(s.Canon(m2))
			return cc, m2, true
		}
		walk = func(ctx sdk.Context, m M, trace []string, only int) {
			rest := depth - len(trace)
			if rest == 0 || c.Expired() || c.Violations() > 40 {
				return
			}
			if only < 0 {
				k := s.Canon(m) + "#" + s.Digest(ctx)
				if v, ok := visited.Load(k); ok && v.(int) >= rest {
					return
				}
				visited.Store(k, rest)
			}
			for i, op := range s.Ops(m) {
				if only >= 0 && i != only {
					continue
				}
				cc, m2, ok := step(ctx, m, trace, op)
				if ok {
					walk(cc, m2, append(append([]string{}, trace...), op.Name), -1)
				}
			}
		}
		op := s.Ops(m)[it.i]
		cc, m2, ok := step(ctx, m, nil, op)
		if it.j >= 0 && ok {
			// expand this node for the j-th operation only
			if it.j < len(s.Ops(m2)) {
				walk(cc, m2, []string{op.Name}, it.j)
			}
		}
	})
}
