package conc

import (
	"fmt"
	"strings"
	"testing"
	"time"

	coretypes "github.com/ethereum/go-ethereum/core/types"
	ethfilters "github.com/ethereum/go-ethereum/eth/filters"

	. "github.com/initia-labs/minievm/verifmc/core"
	"github.com/initia-labs/minievm/verifmc/sched"
)

// inSub subscribes to the indexer.
type inSub struct {
	name        string
	late        bool // subscribes while blocks are being made
	leaveAfter  int  // reads so many events and then no more; -1 never
	heads, logs []string
	bad         string
	done        bool
}

func headName(h *coretypes.Header) string {
	return fmt.Sprintf("%d:%x", h.Number, h.Hash().Bytes()[:4])
}

func (s *inSub) run(l *lab) {
	hc, lc, pc := l.idx.Subscribe()
	for n := 0; s.leaveAfter < 0 || n < s.leaveAfter; n++ {
		a, b, p := sched.RecvCase(hc), sched.RecvCase(lc), sched.RecvCase(pc)
		switch sched.Select(s.name, false, a, b, p) {
		case 0:
			s.heads = append(s.heads, headName(a.Val))
		case 1:
			s.logs = append(s.logs, logKeys(b.Val)...)
		case 2:
			s.bad = "a pending transaction appeared"
		}
	}
	s.done = true
}

type x04Case struct {
	name   string
	blocks [][]int
	subs   func() []*inSub
	ws     string // kinds of web socket clients: H new heads, L logs, h/l leaves after it subscribed
	only   int
}

func x04Cases(c *Check) (out []x04Case) {
	shapes := [][][]int{{{1}, {}}, {{2}, {1}}, {{}, {1, 1}, {}}}
	if c.Thorough() {
		shapes = append(shapes, [][]int{{1}, {1}, {1}}, [][]int{{-1, 1}, {2, 0}})
	}
	sets := map[string]func() []*inSub{
		"one":         func() []*inSub { return []*inSub{{name: "a", leaveAfter: -1}} },
		"two":         func() []*inSub { return []*inSub{{name: "a", leaveAfter: -1}, {name: "b", leaveAfter: -1}} },
		"one+gone":    func() []*inSub { return []*inSub{{name: "gone", leaveAfter: 0}, {name: "b", leaveAfter: -1}} },
		"one+leaving": func() []*inSub { return []*inSub{{name: "leaving", leaveAfter: 1}, {name: "b", leaveAfter: -1}} },
		"one+late": func() []*inSub {
			return []*inSub{{name: "a", leaveAfter: -1}, {name: "late", late: true, leaveAfter: -1}}
		},
		"gone+one+gone": func() []*inSub {
			return []*inSub{{name: "gone", leaveAfter: 0}, {name: "b", leaveAfter: -1}, {name: "gone2", leaveAfter: 2}}
		},
	}
	for _, n := range []string{"one", "two", "one+gone", "one+leaving", "one+late", "gone+one+gone"} {
		for i, sh := range shapes {
			if i == 2 && !c.Thorough() && n != "one" && n != "one+gone" {
				continue
			}
			out = append(out, x04Case{name: fmt.Sprintf("%s %v", n, sh), blocks: sh, subs: sets[n]})
		}
	}
	for _, ws := range []string{"H", "L", "HL", "Hh", "Lh", "hL", "lL", "HH"} {
		for i, sh := range shapes[:2] {
			if i == 0 && len(ws) > 1 && !c.Thorough() {
				continue
			}
			out = append(out, x04Case{name: fmt.Sprintf("clients %s %v", ws, sh), blocks: sh, ws: ws})
		}
	}
	return
}

// x04Run runs one schedule (or explores) and tells what is wrong with it.
func x04Run(c *Check, l *lab, cs x04Case, explore func(setup func(*sched.S), after func(*sched.S, []int) bool)) (bad string, at []int) {
	var heads, logs []string
	var blks []*blk
	for i, sh := range cs.blocks {
		blks = append(blks, l.block(int64(2+i), sh...))
	}
	// what a block's header is; played under the scheduler so that nothing it
	// starts lives on
	l.reset()
	sched.Run(nil, 20000, false, func(*sched.S) {
		sched.Go("reference", func() {
			for _, b := range blks {
				l.index(b)
				h, err := l.idx.BlockHeaderByNumber(b.ctx, uint64(b.h))
				Must(err)
				b.hash = h.Hash()
				heads = append(heads, headName(h))
				logs = append(logs, logKeys(b.logs)...)
			}
		})
	})
	if len(heads) != len(blks) {
		panic(HarnessFault("the blocks could not be indexed"))
	}
	type client struct {
		k    byte
		c    *conn
		late bool
	}
	var subs []*inSub
	var cls []*client
	chain := false
	explore(func(s *sched.S) {
		l.reset()
		subs, cls, chain = nil, nil, false
		made := 0
		if cs.subs != nil {
			subs = cs.subs()
		}
		ready := 0
		for _, u := range subs {
			u := u
			sched.Go("sub-"+u.name, func() { u.run(l) })
			if !u.late {
				ready++
			}
		}
		if cs.ws != "" {
			sched.Go("server", func() {
				api := l.api(time.Minute)
				for i := 0; i < len(cs.ws); i++ {
					k := &client{k: cs.ws[i], c: newConn()}
					cls = append(cls, k)
					sched.Go(fmt.Sprintf("client-%c", k.k), func() {
						var err error
						if k.k|0x20 == 'h' {
							k.c.sub, err = api.NewHeads(k.c.ctx())
						} else {
							k.c.sub, err = api.Logs(k.c.ctx(), ethfilters.FilterCriteria{})
						}
						Must(err)
						made++
						if k.k >= 'a' {
							sched.Yield("leaving")
							k.c.leave()
						}
					})
				}
			})
		}
		sched.Go("chain", func() {
			// the subscribers that are not late are there
			sched.Block("waiting for subscribers", func() bool {
				if cs.ws != "" {
					return made == len(cs.ws)
				}
				n := 0
				for _, u := range subs {
					if !u.late && l.subscribed(u, s) {
						n++
					}
				}
				return n == ready
			})
			for _, b := range blks {
				l.index(b)
			}
			chain = true
		})
	}, func(s *sched.S, ch []int) bool {
		c.Trans(s.Steps)
		bad = func() string {
			if len(s.Panics) > 0 {
				return "panic: " + s.Panics[0]
			}
			if len(s.Races) > 0 {
				return "race: " + s.Races[0]
			}
			if s.Spin {
				return "does not come to rest"
			}
			if !chain {
				return fmt.Sprintf("the chain stands still: %v", s.Stuck)
			}
			for _, u := range subs {
				if u.bad != "" {
					return u.bad
				}
				if u.done {
					continue
				}
				if u.late {
					if !suffix(heads, u.heads) || !suffix(logs, u.logs) {
						return fmt.Sprintf("the subscriber who came late got headers %v and logs %v, which are not the end of %v and %v", u.heads, u.logs, heads, logs)
					}
				} else if strings.Join(u.heads, " ") != strings.Join(heads, " ") || strings.Join(u.logs, " ") != strings.Join(logs, " ") {
					return fmt.Sprintf("subscriber %s got headers %v and logs %v instead of %v and %v", u.name, u.heads, u.logs, heads, logs)
				}
			}
			for _, k := range cls {
				var got []string
				for _, x := range k.c.got() {
					switch x := x.(type) {
					case *coretypes.Header:
						got = append(got, headName(x))
					case **coretypes.Log:
						got = append(got, logKey(*x))
					case *coretypes.Log:
						got = append(got, logKey(x))
					default:
						return fmt.Sprintf("a client was sent a %T", x)
					}
				}
				want := heads
				if k.k|0x20 == 'l' {
					want = logs
				}
				if k.k >= 'a' { // it left: what it got is a beginning
					if len(got) > len(want) || strings.Join(want[:len(got)], " ") != strings.Join(got, " ") {
						return fmt.Sprintf("a client who left got %v of %v", got, want)
					}
				} else if strings.Join(got, " ") != strings.Join(want, " ") {
					return fmt.Sprintf("a client got %v instead of %v", got, want)
				}
			}
			return ""
		}()
		if bad != "" {
			at = append([]int{}, ch...)
			return false
		}
		key := cs.name
		for _, u := range subs {
			key += fmt.Sprint(u.heads, len(u.logs))
		}
		c.State(key)
		c.Validated(1)
		return true
	})
	return
}

// subscribed says whether the subscriber waits for its first event.
func (l *lab) subscribed(u *inSub, s *sched.S) bool {
	return s.Reached("sub-"+u.name, u.name) || u.done
}

func TestX04(t *testing.T) {
	Run("X04", "bounded", func(c *Check) {
		sched.NoStmts, sched.DelayBound = true, true
		bound := Pick(c, 2, 3)
		c.Note("deviations", bound)
		l := newLab()
		total, complete := 0, true
		for _, cs := range x04Cases(c) {
			if c.Expired() || c.Violations() > 20 {
				break
			}
			cs := cs
			for _, fresh := range []bool{false, true} {
				l.fresh = fresh
				var st sched.Stats
				bad, at := x04Run(c, l, cs, func(setup func(*sched.S), after func(*sched.S, []int) bool) {
					st = sched.Explore(bound, 20000, setup, after, c.Expired)
				})
				total += st.Schedules
				if bad != "" && !fresh {
					continue // look again with an indexer of its own
				}
				c.Exec(cs.name)
				if bad != "" {
					c.Outcome("differs")
					c.Violate("X04|"+cs.name, cs.name+": "+bad, map[string]any{"case": cs.name, "schedule": at}, func() string {
						b, _ := x04Run(c, l, cs, func(setup func(*sched.S), after func(*sched.S, []int) bool) {
							s, ch := sched.Run(at, 20000, false, setup)
							after(s, ch)
						})
						return b
					})
				} else {
					complete = complete && st.Complete
					c.Outcome("all delivered")
				}
				break
			}
		}
		l.fresh = false
		c.Note("schedules", total)
		if !complete {
			c.Truncate("not every schedule within the bound was run")
		}
		c.Sample("case: " + x04Cases(c)[0].name)
	})
}
