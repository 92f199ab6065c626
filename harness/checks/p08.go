package checks

import (
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

type p08Case struct {
	*sim.Case

	// Test is true if the operations are performed by a test, as far as
	// possible.
	Test bool `json:",omitempty"`
}

func init() {
	const hour = 3600 * 1000

	prop.Register("P08", prop.Options{
		Rule: "A case is an application with projections whose compactions succeed, log or fail as dictated by the case, and a history of ticks and events at engine times around multiples of one hour. " +
			"It is non-trivial if some projection is ticked at least twice, or an event is applied to a projection that compacts while handling.",
		Quick:    120000,
		Thorough: 1200000,
	}, func(t *rapid.T) *p08Case {
		test := sim.OneIn(t, 6)
		g := projectionGen(sim.Conflict, sim.Fail, sim.Log, sim.Log, sim.Log, sim.Yield)
		g.MaxMessages = 4
		g.Max = map[string]int{sim.Aggregate: 1, sim.Process: 0, sim.Integration: 0, sim.Projection: 3}
		g.Disabled = true

		base := sim.Pick(t, []int64{0, hour, zeroTime})
		if test {
			base = 0
		}
		for _, d := range []int64{0, 1, hour - 1, hour, hour + 1, 2*hour - 1, 2 * hour, 2*hour + 1, 3*hour - 1, 3 * hour, 30 * hour} {
			g.Times = append(g.Times, base+d)
		}

		c := &sim.Case{
			App:     g.App(t),
			Compact: rapid.Bool().Draw(t, "compact-during-handling"),
		}
		c.Ops = g.History(t, c.App, 2, 9, []string{"tick", "tick", "tick", "dispatch"}, 4)
		return &p08Case{c, test}
	}, func(cp **p08Case, st *prop.Stats) error {
		if (*cp).Test {
			return p08Test((*cp).Case, st)
		}
		c := (*cp).Case

		w := sim.NewEngine(c.App, engine.EnableProjectionCompactionDuringHandling(c.Compact))
		o := &exclusiveObserver{}

		var results []sim.Result
		for i, op := range c.Ops {
			results = append(results, w.Run(i, op, engine.WithObserver(o)))
		}
		if err := noPanics(results); err != nil {
			return err
		}
		if o.overlapped.Load() || w.NotifyOverlapped.Load() {
			return fmt.Errorf("an observer was notified of two facts at the same time")
		}
		return checkCompaction(c, w.Trace(), results, st)
	})
}

// p08Test performs operations as actions of a test, during which projections
// always compact while handling.
func p08Test(c *sim.Case, st *prop.Stats) error {
	st.Class("within a test")
	r := tk.Begin(&tk.Case{
		App:  c.App,
		Opts: []sim.Opt{{Type: sim.Projection, On: true}},
	})
	for i, op := range c.Ops {
		a := &tk.Act{K: tk.To, D: op.Now}
		if op.K == "dispatch" {
			a = &tk.Act{K: tk.Dispatch, M: op.M}
		} else if op.Now < r.Clock {
			continue
		}
		res := r.Step(i, &tk.Step{Acts: []*tk.Act{a}})
		if res.Panicked {
			return fmt.Errorf("step %d panicked: %v", i, res.Panic)
		}
		for _, f := range res.Of("Fatal") {
			r.Results[len(r.Results)-1].Err, _ = f.Args[0].(error)
		}
	}
	return checkCompaction(r.Model(), r.World.Trace(), r.Results, st)
}

// zeroTime is the offset of the zero time.
var zeroTime = time.Time{}.UnixMilli() - sim.Epoch.UnixMilli()

// exclusiveObserver is an observer that verifies that it is not notified
// concurrently.
type exclusiveObserver struct {
	busy       atomic.Int32
	overlapped atomic.Bool
}

func (o *exclusiveObserver) Notify(f fact.Fact) {
	if o.busy.Add(1) != 1 {
		o.overlapped.Store(true)
	}

	// Remain busy for long enough that a concurrent notification is likely to
	// be noticed.
	if _, ok := f.(fact.MessageLoggedByProjection); ok {
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
	}

	o.busy.Add(-1)
}

// checkCompaction verifies when projections are compacted.
func checkCompaction(c *sim.Case, trace []*sim.Entry, results []sim.Result, st *prop.Stats) error {
	const hour = 3600 * 1000

	type last struct {
		at    int64
		valid bool
	}

	var (
		all       = calls(c.App, trace)
		compacted = map[string]last{}
		ticks     = map[string]int{}
	)

	for i, op := range c.Ops {
		cs := callsOf(all, i)

		for _, h := range c.App.Handlers {
			if h.Type != sim.Projection {
				continue
			}

			bad := func(f string, args ...any) error {
				return fmt.Errorf("operation %d (%s at %d), %s: %s\n%s", i, op.K, op.Now, h.Name, fmt.Sprintf(f, args...), traceText(trace, i))
			}

			var (
				compactions []*call
				applied     []*call
				closed      []*call
				en, _       = sim.Enabled(h, op.Opts)
				want        = 0
			)
			for _, x := range cs {
				if x.H == h.Name {
					switch x.Method {
					case "Compact":
						compactions = append(compactions, x)
					case "HandleEvent":
						applied = append(applied, x)
					case "CloseResource":
						closed = append(closed, x)
					}
				}
			}

			if op.K == "tick" {
				if en {
					ticks[h.Name]++
					st.NonTrivial(ticks[h.Name] >= 2)
					l := compacted[h.Name]
					st.ClassIf(l.valid && op.Now-l.at == hour, "tick exactly one hour after compaction")
					st.ClassIf(l.valid && op.Now-l.at == hour-1, "tick just before the hour")
					st.ClassIf(l.valid && op.Now < l.at, "tick before last compaction")
					st.ClassIf(op.Now < zeroTime+hour, "tick within an hour of the zero time")
					if !l.valid || op.Now-l.at >= hour {
						want = 1
						compacted[h.Name] = last{op.Now, true}
					}
				} else {
					st.Class("tick of disabled projection")
				}
			} else if c.Compact {
				want = len(applied)
				st.NonTrivial(want > 0)
			}

			if len(compactions) != want {
				return bad("compacted %d time(s), expected %d", len(compactions), want)
			}

			for n, x := range compactions {
				if x.end == nil {
					return bad("compaction did not finish before the operation")
				}
				if !x.Time.Equal(sim.At(op.Now)) {
					return bad("compaction was told that the time is %s, expected %s", x.Time, sim.At(op.Now))
				}
				if op.K != "tick" {
					// The compaction must have finished before the handling of
					// the event is announced to have completed.
					e := handlingCompleted(trace, i, h.Name, applied[n].M.K)
					if e == nil {
						return bad("handling of event #%d was not completed", applied[n].M.K)
					}
					if x.end.Seq > e.Seq {
						return bad("handling of event #%d completed before the compaction", applied[n].M.K)
					}
					if n > 0 && x.Seq < applied[n-1].end.Seq {
						return bad("compaction began while handling another event")
					}
				}

				if x.end.Err != nil {
					reported := results[i].Err != nil && strings.Contains(results[i].Err.Error(), x.end.Err.Error())
					hidden := false
					if op.K != "tick" {
						hidden = applied[n].end.Err != nil
						for _, y := range closed {
							if y.Resource == applied[n].Resource && y.end.Err != nil {
								hidden = true
							}
						}
					}
					if hidden {
						st.Class("compaction failed along with event")
						if n := countErrors(results[i].Err, x.end.Err); n > 0 {
							return bad("the failed compaction is reported even though handling the event failed, too")
						}
					} else {
						st.Class("compaction failed")
						if !reported {
							return bad("the failed compaction is not reported, got %v", results[i].Err)
						}
					}
				}
			}

			// Verify the facts.
			var begun, finished int
			for _, e := range trace {
				if e.Op != i || e.Kind != sim.Fact {
					continue
				}
				switch f := e.Fact.(type) {
				case fact.ProjectionCompactionBegun:
					if f.Handler.Identity().Name != h.Name {
						continue
					}
					begun++
					if begun > len(compactions) {
						return bad("too many announcements that compaction has begun")
					}
					if compactions[begun-1].Seq < e.Seq {
						return bad("compaction was announced after it began")
					}
				case fact.ProjectionCompactionCompleted:
					if f.Handler.Identity().Name != h.Name {
						continue
					}
					finished++
					if finished > len(compactions) {
						return bad("too many announcements that compaction has completed")
					}
					x := compactions[finished-1]
					if x.end.Seq > e.Seq {
						return bad("the end of the compaction was announced before it ended")
					}
					if f.Error != x.end.Err {
						return bad("the compaction is announced to have failed with %v, expected %v", f.Error, x.end.Err)
					}
				}
			}
			if begun != len(compactions) || finished != len(compactions) {
				return bad("%d compactions announced to begin and %d to be completed, expected %d", begun, finished, len(compactions))
			}
		}
	}

	return nil
}

func countErrors(err, target error) int {
	n := 0
	for _, e := range scriptedErrors(err) {
		if e == target {
			n++
		}
	}
	return n
}

func handlingCompleted(trace []*sim.Entry, op int, h string, k int) *sim.Entry {
	for _, e := range trace {
		if e.Op == op && e.Kind == sim.Fact {
			if f, ok := e.Fact.(fact.HandlingCompleted); ok {
				if f.Handler.Identity().Name == h && asContent(f.Envelope.Message).K == k {
					return e
				}
			}
		}
	}
	return nil
}
