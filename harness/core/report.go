// Package core is the shared machinery of the minievm model-checking checks.
package core

import (
	storetypes "cosmossdk.io/store/types"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check collects what one run of one property's check explored.
type Check struct {
	ID    string
	Level string
	Tier  string
	Seed  int
	Root  string // /verif
	start time.Time
	limit time.Time

	mu          sync.Mutex
	states      map[[8]byte]struct{}
	outcomes    map[string]int64
	samples     []string
	sampleSeen  map[string]bool
	notes       map[string]any
	known       map[string]string
	knownHit    map[string]string
	violations  map[string]*violation
	order       []string
	flaky       []string
	unconfirmed int
	assume      []string
	truncated   atomic.Bool

	transitions atomic.Int64
	executions  atomic.Int64
	validated   atomic.Int64
	distinct    map[[8]byte]struct{}
}

type violation struct {
	sig, detail string
	replay      any
	count       int
}

// Run executes a check body and ends the process with the check's exit code.
func Run(id, level string, body func(c *Check)) {
	c := &Check{ID: id, Level: level, Tier: os.Getenv("VERIF_TIER"), Root: os.Getenv("VERIF_ROOT"),
		start: time.Now(), states: map[[8]byte]struct{}{}, outcomes: map[string]int64{}, sampleSeen: map[string]bool{},
		notes: map[string]any{}, known: map[string]string{}, knownHit: map[string]string{},
		violations: map[string]*violation{}, distinct: map[[8]byte]struct{}{}}
	lim := 24 << 30
	if v, err := strconv.Atoi(os.Getenv("VERIF_MEMGB")); err == nil && v > 0 {
		lim = v << 30
	}
	memWatch(c, lim)
	if c.Tier == "" {
		c.Tier = "quick"
	}
	if c.Root == "" {
		c.Root = "/verif"
	}
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 300 * time.Second
	if c.Tier == "thorough" {
		budget = 3000 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && v > 0 {
		budget = time.Duration(v) * time.Second
	}
	c.limit = c.start.Add(budget)
	c.loadKnown()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if hf, ok := r.(HarnessFault); ok {
					fmt.Printf("HARNESS-ERROR %s: %s\n", id, string(hf))
					os.Exit(3)
				}
				st := string(debug.Stack())
				c.Violate("panic-outside-case", fmt.Sprintf("the code under test panicked while the check set it up: %v", r), st, nil)
			}
		}()
		defer cpuProfile()()
		body(c)
	}()
	os.Exit(c.finish())
}

// HarnessFault is panicked when the harness itself (not the code) is broken.
type HarnessFault string

// Thorough tells whether the deep tier runs.
func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func Pick[T any](c *Check, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

// Expired tells whether the internal deadline has passed; the run is then reported as not exhaustive.
func (c *Check) Expired() bool {
	if time.Now().After(c.limit) {
		c.truncated.Store(true)
		return true
	}
	return false
}

// Truncate marks the run as not exhaustive.
func (c *Check) Truncate(why string) { c.truncated.Store(true); c.Note("truncated", why) }

// Share lets a phase use at most a part of the remaining time.
func (c *Check) Share(frac float64) time.Time {
	return time.Now().Add(time.Duration(float64(time.Until(c.limit)) * frac))
}

func key8(s string) [8]byte {
	h := sha256.Sum256([]byte(s))
	var k [8]byte
	copy(k[:], h[:8])
	return k
}

// State records one reached state (by canonical description); true when new.
func (c *Check) State(canon string) bool {
	k := key8(canon)
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.states[k]; ok {
		return false
	}
	c.states[k] = struct{}{}
	return true
}

// Trans counts executed transitions of the real code.
func (c *Check) Trans(n int) { c.transitions.Add(int64(n)) }

// Exec counts one complete execution; canon identifies it.
func (c *Check) Exec(canon string) {
	c.executions.Add(1)
	k := key8(canon)
	c.mu.Lock()
	c.distinct[k] = struct{}{}
	if len(c.samples) < 4 && !c.sampleSeen[canon] {
		c.sampleSeen[canon] = true
		if len(canon) > 1500 {
			canon = canon[:1500] + "..."
		}
		c.samples = append(c.samples, canon)
	}
	c.mu.Unlock()
}

// Validated counts a model trace that was replayed on the implementation and agreed.
func (c *Check) Validated(n int) { c.validated.Add(int64(n)) }

// Outcome counts a class of observed outcome (to show the exploration is not vacuous).
func (c *Check) Outcome(o string) {
	c.mu.Lock()
	c.outcomes[o]++
	c.mu.Unlock()
}

// Sample adds a written-out case.
func (c *Check) Sample(s string) {
	c.mu.Lock()
	if len(c.samples) < 12 && !c.sampleSeen[s] {
		c.sampleSeen[s] = true
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// Note puts an additional fact into the evidence.
func (c *Check) Note(k string, v any) {
	c.mu.Lock()
	c.notes[k] = v
	c.mu.Unlock()
}

// Assume records an assumption.
func (c *Check) Assume(s string) {
	c.mu.Lock()
	c.assume = append(c.assume, s)
	c.mu.Unlock()
}

// Violations returns the number of distinct (unlisted) violations so far.
func (c *Check) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations)
}

// enough violations have been confirmed: nothing is gained by looking for more.
const enough = 6

// Violate reports a violation. sig identifies it (known findings are matched on it),
// again re-runs the case and returns a non-empty description when it fails again.
func (c *Check) Violate(sig, detail string, replay any, again func() string) {
	sig = strings.ReplaceAll(strings.TrimSpace(sig), " ", "-")
	c.mu.Lock()
	if v, ok := c.violations[sig]; ok {
		v.count++
		c.mu.Unlock()
		return
	}
	if what, ok := c.known[sig]; ok {
		c.knownHit[sig] = what
		c.mu.Unlock()
		return
	}
	if len(c.violations) >= enough || len(c.flaky) >= 4*enough {
		// confirming takes fresh applications, which take memory
		c.unconfirmed++
		c.mu.Unlock()
		return
	}
	c.mu.Unlock()
	if again != nil {
		for i := 0; i < 3; i++ {
			if again() == "" {
				c.mu.Lock()
				c.flaky = append(c.flaky, sig+": "+detail)
				c.mu.Unlock()
				return
			}
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if v, ok := c.violations[sig]; ok {
		v.count++
		return
	}
	c.violations[sig] = &violation{sig, detail, replay, 1}
	c.order = append(c.order, sig)
}

// loadKnown reads /verif/KNOWN_FINDINGS.txt: "known: property=<id> sig=<sig> <what>".
func (c *Check) loadKnown() {
	bz, err := os.ReadFile(filepath.Join(c.Root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(bz), "\n") {
		if !strings.HasPrefix(l, "known: property="+c.ID+" ") {
			continue
		}
		f := strings.SplitN(l, " ", 4)
		if len(f) < 4 || !strings.HasPrefix(f[2], "sig=") {
			continue
		}
		c.known[strings.TrimPrefix(f[2], "sig=")] = f[3]
	}
}

func (c *Check) finish() int {
	memProfile()
	c.mu.Lock()
	defer c.mu.Unlock()
	outDir := os.Getenv("VERIF_EVIDENCE")
	if outDir == "" {
		outDir = filepath.Join(c.Root, "evidence")
	}
	_ = os.MkdirAll(outDir, 0o755)
	exh := !c.truncated.Load()
	cov := map[string]any{
		"states": len(c.states), "transitions": c.transitions.Load(),
		"traces_validated_against_impl": c.validated.Load(),
		"executions":                    c.executions.Load(), "distinct_executions": len(c.distinct),
		"samples": c.samples, "exhaustive": exh, "distinct_outcomes": len(c.outcomes),
	}
	top := make([]string, 0, len(c.outcomes))
	for o := range c.outcomes {
		top = append(top, o)
	}
	sort.Strings(top)
	oc := map[string]int64{}
	for i, o := range top {
		if i == 60 {
			break
		}
		oc[o] = c.outcomes[o]
	}
	cov["outcomes"] = oc
	for k, v := range c.notes {
		cov[k] = v
	}
	if c.Level == "fault_enumeration" || c.Level == "exploration" {
		cov["evaluations"] = c.executions.Load()
		cov["distinct_nontrivial"] = len(c.distinct)
		if _, ok := cov["rule"]; !ok {
			cov["rule"] = "every bounded case once; distinct by its written-out form"
		}
	}
	if c.unconfirmed > 0 {
		cov["more_not_confirmed"] = c.unconfirmed
	}
	if len(c.flaky) > 0 {
		cov["not_reproduced"] = c.flaky
	}
	kh := []string{}
	for s := range c.knownHit {
		kh = append(kh, s)
	}
	sort.Strings(kh)
	if len(kh) > 0 {
		cov["known_findings_seen"] = kh
	}
	ev := map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"assumptions": append([]string{}, c.assume...), "wall_s": time.Since(c.start).Seconds(), "violations": len(c.violations)}
	bz, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("HARNESS-ERROR evidence:", err)
		return 3
	}
	if err := os.WriteFile(filepath.Join(outDir, c.ID+".json"), append(bz, '\n'), 0o644); err != nil {
		fmt.Println("HARNESS-ERROR evidence:", err)
		return 3
	}
	fmt.Printf("%s: states=%d transitions=%d executions=%d validated=%d outcomes=%d exhaustive=%v wall=%.1fs workers=%d\n", c.ID,
		len(c.states), c.transitions.Load(), c.executions.Load(), c.validated.Load(), len(c.outcomes), exh, time.Since(c.start).Seconds(), runtime.NumCPU())
	for _, s := range kh {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, c.knownHit[s])
	}
	for _, f := range c.flaky {
		fmt.Printf("not reproduced on re-run (no alarm): %.900s\n", f)
	}
	if len(c.violations) == 0 {
		return 0
	}
	rd := filepath.Join(c.Root, "replays")
	if v := os.Getenv("VERIF_REPLAYS"); v != "" {
		rd = v
	}
	_ = os.MkdirAll(rd, 0o755)
	for i, s := range c.order {
		if i == 5 {
			fmt.Printf("... and %d more distinct violations\n", len(c.order)-5)
			break
		}
		v := c.violations[s]
		h := sha256.Sum256([]byte(s))
		p := filepath.Join(rd, c.ID+"-"+hex.EncodeToString(h[:4])+".json")
		bz, _ := json.MarshalIndent(map[string]any{"property": c.ID, "signature": v.sig, "what": v.detail, "case": v.replay,
			"times": v.count, "rerun": fmt.Sprintf("/verif/run.sh %s %s", c.ID, c.Tier)}, "", " ")
		_ = os.WriteFile(p, append(bz, '\n'), 0o644)
		d := v.detail
		if len(d) > 1200 {
			d = d[:1200] + "..."
		}
		fmt.Printf("  [%s] %s\n", v.sig, d)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
	}
	return 1
}

// Parallel feeds every item of gen to workers; each worker has its own context made by mk.
func Parallel[T any, W any](c *Check, workers int, mk func(i int) W, gen func(yield func(T) bool), do func(w W, item T)) {
	if workers <= 0 {
		workers = runtime.NumCPU()
		if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
			workers = v
		}
	}
	ch := make(chan []T, 4*workers)
	var wg sync.WaitGroup
	var fault atomic.Value
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fault.Store(fmt.Sprintf("%v\n%s", r, debug.Stack()))
					for range ch { // drain
					}
				}
			}()
			w := mk(i)
			for b := range ch {
				for _, it := range b {
					if c.Violations() < enough {
						do(w, it)
					}
				}
			}
		}(i)
	}
	var batch []T
	gen(func(t T) bool {
		batch = append(batch, t)
		if len(batch) >= 16 {
			ch <- batch
			batch = nil
		}
		return !c.Expired() && c.Violations() < enough
	})
	if len(batch) > 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	if f := fault.Load(); f != nil {
		panic(f.(string))
	}
}

// Try runs f and turns a panic into an error string.
func Try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v", r)
			if o, ok := r.(storetypes.ErrorOutOfGas); ok {
				p = "out of gas: " + o.Descriptor
			}
			if os.Getenv("VERIF_STACK") != "" {
				p += "\n" + string(debug.Stack())
			}
		}
	}()
	f()
	return ""
}
