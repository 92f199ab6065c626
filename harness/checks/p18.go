package checks

import (
	"fmt"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

func init() {
	prop.Register("P18", prop.Options{
		Rule: "A case is an application and a test of 1 to 3 steps, each an action (some of which fail or panic) with a tree of expectations up to depth 4 and width 4, whose leaves are instrumented, user-defined or about messages. " +
			"It is non-trivial if some tree has at least 4 leaves with differing verdicts.",
		Quick:    140000,
		Thorough: 840000,
	}, func(t *rapid.T) *tk.Case {
		g := sim.Gen{
			Max:         map[string]int{sim.Aggregate: 2, sim.Process: 1, sim.Integration: 1, sim.Projection: 1},
			MaxMessages: 6,
			Instances:   []string{"a"},
			Times:       []int64{0, 1000, 2000},
		}.Defaults()
		c := &tk.Case{App: g.App(t)}
		g.Ops = []string{sim.Log}
		if sim.OneIn(t, 4) {
			g.Ops = append(g.Ops, sim.Fail)
		}
		for range sim.Count(t, 1, 3, 12) {
			a := tk.Action(t, g, c.App, []string{tk.Dispatch, tk.Dispatch, tk.Dispatch, tk.By, tk.Call, tk.Call, tk.Failing}, 0)
			if a.K == tk.Failing {
				a.S = "<action failed>"
			}
			if a.K == tk.Call && sim.OneIn(t, 4) {
				a.Calls = append(a.Calls, &tk.CallOp{K: "panic"})
			}
			c.Steps = append(c.Steps, &tk.Step{Acts: []*tk.Act{a}})
		}
		c.AssignKeys()
		for _, s := range c.Steps {
			eg := tk.Gen{
				App:   c.App,
				Act:   s.Acts[0],
				Depth: sim.Pick(t, []int{0, 1, 2, 2, 3, 3, 4}),
				Width: sim.Pick(t, []int{1, 2, 3, 3, 4, 4}),
				Kinds: []string{tk.Fixed, tk.Fixed, tk.Fixed, tk.Fixed, tk.Satisfy, tk.Message, tk.Type, tk.Match, tk.Only},
			}
			s.E = eg.Exp(t)
			share(t, s.E)
		}
		return c
	}, func(cp **tk.Case, st *prop.Stats) error {
		c := *cp
		r := tk.Begin(c)

		for i, s := range c.Steps {
			satisfied := map[string]int{}
			r.Builder.Clear()
			r.Builder.OnSatisfy = func(e *tk.Exp, t *testkit.SatisfyT) {
				satisfied[e.S]++
				if e.V == tk.Fail {
					t.Fail()
				}
			}

			start := r.World.Len()
			res := r.Step(i, s)
			trace := r.World.Trace()[start:]

			var facts []fact.Fact
			for _, e := range trace {
				if e.Kind == sim.Fact {
					facts = append(facts, e.Fact)
				}
			}

			// Every leaf is used as often as it appears in the tree.
			uses := countUses(s.E, 1, map[*tk.Exp]int{})
			leaves := map[string]int{}
			for e, n := range uses {
				if e.K == tk.Fixed {
					leaves[e.S] += n
				}
			}
			for _, l := range r.Builder.Leaves {
				leaves[l.Description()]--
			}
			for n, x := range leaves {
				if x != 0 {
					return fmt.Errorf("step %d: %q is used %d times too few", i, n, x)
				}
			}
			for e, n := range uses {
				switch e.K {
				case tk.Satisfy:
					if satisfied[e.S] != n {
						return fmt.Errorf("step %d: %q is evaluated %d times, expected %d", i, e.S, satisfied[e.S], n)
					}
				case tk.Repeat:
					got := r.Builder.Iterations[e]
					if len(got) != n*e.N {
						return fmt.Errorf("step %d: %q has iterations %v, expected %d of them", i, e.S, got, n*e.N)
					}
					for j, x := range got {
						if x != j%e.N {
							return fmt.Errorf("step %d: %q has iterations %v", i, e.S, got)
						}
					}
				}
			}

			// Every leaf is notified of every fact, then finalised, and then
			// reported on.
			lastDone, firstReport := 0, 0
			for _, l := range r.Builder.Leaves {
				n, done := 0, false
				for _, ev := range l.Events {
					switch ev.What {
					case "notify":
						if done {
							return fmt.Errorf("step %d: %q is notified after it was finalised", i, l.Description())
						}
						if n >= len(facts) || !sameFact(facts[n], ev.Fact) {
							return fmt.Errorf("step %d: %q is notified of %T as fact #%d", i, l.Description(), ev.Fact, n)
						}
						n++
					case "done":
						if done {
							return fmt.Errorf("step %d: %q is finalised twice", i, l.Description())
						}
						done = true
						lastDone = max(lastDone, ev.Time)
					case "report":
						if firstReport == 0 || ev.Time < firstReport {
							firstReport = ev.Time
						}
					}
				}
				if n != len(facts) {
					return fmt.Errorf("step %d: %q is notified of %d facts, expected %d", i, l.Description(), n, len(facts))
				}
				if !done {
					return fmt.Errorf("step %d: %q is not finalised", i, l.Description())
				}
			}
			if firstReport != 0 && firstReport < lastDone {
				return fmt.Errorf("step %d: a report is generated before all leaves are finalised", i)
			}
			if r.CallEnded != 0 && len(r.Builder.Leaves) > 0 {
				for _, l := range r.Builder.Leaves {
					for _, ev := range l.Events {
						if ev.What != "notify" && ev.Time < r.CallEnded {
							return fmt.Errorf("step %d: %q is finalised before the action ends", i, l.Description())
						}
					}
				}
			}

			// Actions that do not succeed have no verdict.
			if res.Panicked {
				if res.Panic != tk.CallPanic {
					return fmt.Errorf("step %d panicked: %v", i, res.Panic)
				}
				st.Class("action panics")
				continue
			}
			if len(res.Of("Fatal")) > 0 {
				fails := s.Acts[0].K == tk.Failing
				for _, e := range trace {
					fails = fails || (e.Kind == sim.Return && e.Err != nil)
				}
				if !fails {
					return fmt.Errorf("step %d: failed fatally: %s", i, res.Of("Fatal")[0].Text)
				}
				st.Class("action fails")
				continue
			}

			o := tk.Observed{Messages: r.Produced(i)}
			want := s.E.Holds(o)
			failed := len(res.Of("FailNow")) > 0
			if failed == want {
				return fmt.Errorf("step %d: the tree holds=%t, but the test is failed=%t", i, want, failed)
			}

			for _, l := range r.Builder.Leaves {
				for _, ev := range l.Events {
					if ev.What == "report" && ev.TreeOK != want {
						return fmt.Errorf("step %d: the tree holds=%t, but %q reports on a tree that is ok=%t", i, want, l.Description(), ev.TreeOK)
					}
				}
			}

			passed, total := 0, 0
			for e := range uses {
				if !e.IsComposite() {
					total++
					if e.Holds(o) {
						passed++
					}
				}
			}
			st.Class(fmt.Sprintf("%s holds=%t", s.E.K, want))
			st.NonTrivial(total >= 4 && passed > 0 && passed < total)
		}
		return nil
	})
}

// share causes some instrumented leaves to be used more than once.
func share(t *rapid.T, e *tk.Exp) {
	if !sim.OneIn(t, 4) {
		return
	}
	var first *tk.Exp
	e.Walk(func(x *tk.Exp) {
		if x.K == tk.Fixed && rapid.Bool().Draw(t, "shared") {
			if first == nil {
				first = x
				x.Shared = 1
			} else {
				*x = *first
			}
		}
	})
}

// countUses returns the number of times each expectation is to be evaluated.
func countUses(e *tk.Exp, n int, res map[*tk.Exp]int) map[*tk.Exp]int {
	res[e] += n
	if e.K == tk.Repeat {
		for i := range e.N {
			countUses(e.Child(i), n, res)
		}
	} else {
		for _, c := range e.C {
			countUses(c, n, res)
		}
	}
	return res
}
