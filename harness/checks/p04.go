package checks

import (
	"fmt"
	"slices"

	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

func init() {
	prop.Register("P04", prop.Options{
		Rule: "A case is an application with aggregates and a history of commands, resets and other operations. " +
			"It is non-trivial if some aggregate instance handles at least two commands and its state is non-empty for at least one of them.",
		Quick:    210000,
		Thorough: 1400000,
	}, func(t *rapid.T) *sim.Case {
		g := sim.Gen{
			Min:          map[string]int{sim.Aggregate: 1},
			Max:          map[string]int{sim.Aggregate: 3, sim.Process: 1, sim.Integration: 1, sim.Projection: 1},
			Large:        60,
			MaxMessages:  10,
			MaxOps:       5,
			NumInstances: 2,
			Ops:          []string{sim.Destroy, sim.Destroy, sim.Log},
		}.Defaults()
		c := &sim.Case{App: g.App(t)}
		c.Ops = g.History(t, c.App, 2, 9, []string{
			"dispatch", "dispatch", "dispatch", "dispatch", "dispatch", "dispatch",
			"dispatch", "dispatch", "dispatch", "dispatch", "tick", "reset",
		}, 8)
		return c
	}, func(cp **sim.Case, st *prop.Stats) error {
		c := *cp
		w, results := run(c)
		if err := noErrors(results); err != nil {
			return err
		}
		return checkAggregates(c, w.Trace(), st)
	})
}

type instance struct{ h, id string }

// checkAggregates verifies that the roots given to aggregate handlers are folds
// of the events that the instance has recorded.
func checkAggregates(c *sim.Case, trace []*sim.Entry, st *prop.Stats) error {
	var (
		history = map[instance][]int{}
		used    = map[int]bool{}
		visits  = map[instance]int{}
		ends    = map[int]*call{}
	)

	for _, x := range calls(c.App, trace) {
		ends[x.Call] = x
	}

	for _, e := range trace {
		if e.Kind == sim.Reset {
			history = map[instance][]int{}
			continue
		}

		if e.Kind != sim.Call || e.Method != "HandleCommand" {
			continue
		}

		x := ends[e.Call]
		if x.spec.Type != sim.Aggregate {
			continue
		}

		bad := func(f string, args ...any) error {
			return fmt.Errorf("operation %d: %s.HandleCommand(#%d), instance %q: %s\n%s", e.Op, e.H, e.M.K, e.Inst, fmt.Sprintf(f, args...), traceText(trace, e.Op))
		}

		if e.Inst != e.M.I {
			return bad("routed to %q", e.M.I)
		}

		k := instance{e.H, e.Inst}
		visits[k]++
		st.NonTrivial(visits[k] >= 2 && len(history[k]) > 0)

		if used[e.RootID] {
			return bad("was given a root that has been used before")
		}
		used[e.RootID] = true

		if !equalInts(e.Root, history[k]) {
			return bad("the root contains %v, expected %v", e.Root, history[k])
		}

		if x.failed() {
			// Only possible if the handler panicked.
			st.ClassIf(len(x.done) > 0, "aggregate panicked after doing something")
			continue
		}

		var (
			recorded  []int
			exists    = len(history[k]) > 0
			destroyed = false
			gone      = false
		)

		for _, d := range x.done {
			switch d.Do.K {
			case sim.Record:
				recorded = append(recorded, d.Do.M.K)
				st.ClassIf(destroyed && gone, "record after destroy")
				exists = true
				gone = false

				n := 0
				for _, v := range d.Root {
					if v == d.Do.M.K {
						n++
					}
				}
				if n != 1 {
					return bad("the root contains %v after event #%d was recorded", d.Root, d.Do.M.K)
				}
				if !destroyed && !equalInts(d.Root, slices.Concat(history[k], recorded)) {
					return bad("the root contains %v after event #%d was recorded, expected %v then %v", d.Root, d.Do.M.K, history[k], recorded)
				}
			case sim.Destroy:
				if exists {
					destroyed = true
					gone = true
				}
				exists = false
			}
		}

		if exists {
			history[k] = slices.Concat(history[k], recorded)
		} else {
			st.ClassIf(gone, "destroyed")
			delete(history, k)
		}
		st.ClassIf(len(history[k]) >= 5, "history of 5+ events")
	}

	return nil
}
