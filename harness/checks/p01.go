package checks

import (
	"fmt"
	"runtime"

	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

func init() {
	prop.Register("P01", prop.Options{
		Rule: "A case is an application of 1 to 8 handlers with a random legal routing table and a history of dispatches " +
			"and ticks (some with handlers disabled) of messages that carry the scripts their handlers follow. " +
			"Some messages are deeply equal to others, and some are dispatched or produced several times over. " +
			"It is non-trivial if some operation causes at least 3 deliveries, at least one of them of a message produced by a handler.",
		Quick:    250000,
		Thorough: 2000000,
	}, func(t *rapid.T) *sim.Case {
		g := sim.Gen{
			Max:         map[string]int{sim.Aggregate: 2, sim.Process: 3, sim.Integration: 2, sim.Projection: 3},
			Disabled:    true,
			Large:       60,
			MaxMessages: 24,
			Schedule:    2,
			Ops:         []string{sim.Destroy, sim.End, sim.Log, sim.RouteIgnore, sim.Fail},
		}.Defaults()
		c := &sim.Case{App: g.App(t)}
		c.Ops = g.History(t, c.App, 1, 6, []string{"dispatch", "dispatch", "tick"}, 3)
		if sim.OneIn(t, 4) {
			c.Ops = g.Repeat(t, c.Ops)
		}
		return c
	}, func(cp **sim.Case, st *prop.Stats) error {
		c := *cp
		sim.Link(c.Ops)
		w := sim.NewEngine(c.App)
		var results []sim.Result
		for i, op := range c.Ops {
			results = append(results, w.Run(i, op))
			n := w.Len()
			runtime.Gosched()
			if w.Len() != n {
				return fmt.Errorf("handlers are called after operation %d has returned", i)
			}
		}
		if err := noPanics(results); err != nil {
			return err
		}
		return checkDelivery(c, w.Trace(), st)
	})
}

// delivery is a combination of a message and a handler.
type delivery struct {
	K int
	H string
}

// checkDelivery verifies that each command and event is delivered exactly once
// to each enabled handler that consumes it.
func checkDelivery(c *sim.Case, trace []*sim.Entry, st *prop.Stats) error {
	all := calls(c.App, trace)

	for i, op := range c.Ops {
		var (
			expect = map[delivery]int{}
			actual = map[delivery]int{}

			// ignored is the events that are not routed to any instance. Such
			// an event must be given to the process, though not necessarily
			// once for each time that it occurs.
			ignored = map[delivery]bool{}

			want = func(m *sim.Msg) {
				for _, h := range c.App.ConsumersOf(m.T) {
					if en, _ := sim.Enabled(h, op.Opts); en {
						expect[delivery{m.K, h.Name}]++
					}
				}
			}
			cascade bool
		)

		if op.K == "dispatch" {
			want(op.M)
		}

		for _, x := range callsOf(all, i) {
			// Things produced by an aggregate, process or integration are to be
			// delivered if the call succeeds. Those recorded by an integration
			// are delivered even if it then fails.
			if x.isHandle() && (!x.failed() || x.spec.Type == sim.Integration && x.end.Kind == sim.Return) {
				for _, m := range x.produced("CE") {
					want(m)
					cascade = true
					st.ClassIf(x.failed(), "event recorded by integration that fails")
				}
			}

			if x.M == nil || x.M.T[0] == 'T' {
				continue
			}

			k := delivery{x.M.K, x.H}

			switch {
			case x.Method == "RouteEventToInstance":
				if x.end.OK {
					// counted when it is handled
					continue
				}
				ignored[k] = true
				if actual[k] == 0 {
					actual[k]++
				}
			case x.isHandle():
				actual[k]++
				if x.spec.Type == sim.Process && x.M.Has(x.H, sim.RouteIgnore) {
					return fmt.Errorf("operation %d: %s was given event #%d, which it ignores", i, x.H, x.M.K)
				}
			}
		}

		for k, n := range expect {
			st.ClassIf(n > 1, "same message produced more than once")
			if actual[k] != n && !(ignored[k] && actual[k] != 0) {
				return fmt.Errorf("operation %d: message #%d was delivered to %s %d time(s), expected %d\n%s", i, k.K, k.H, actual[k], n, traceText(trace, i))
			}
		}
		for k, n := range actual {
			if expect[k] == 0 {
				return fmt.Errorf("operation %d: message #%d was delivered to %s %d time(s), expected never\n%s", i, k.K, k.H, n, traceText(trace, i))
			}
		}

		st.NonTrivial(len(actual) >= 3 && cascade)
		st.ClassIf(len(actual) >= 100, "100+ deliveries in one operation")
		st.ClassIf(len(actual) >= 10, "10+ deliveries in one operation")
		st.ClassIf(op.K == "tick" && len(actual) > 0, "delivery during tick")
		st.ClassIf(len(op.Opts) > 0 && len(actual) > 0, "delivery with options")
		fan := map[int]int{}
		for k := range actual {
			fan[k.K]++
			st.ClassIf(fan[k.K] >= 3, "message with 3+ consumers")
		}
	}

	return nil
}
