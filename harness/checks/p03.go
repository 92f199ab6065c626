package checks

import (
	"fmt"

	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

func init() {
	prop.Register("P03", prop.Options{
		Rule: "A case is an application and a history of dispatches and ticks, during which some handlers fail. " +
			"It is non-trivial if, in some operation, at least three commands and events are handled and one handler call produced two of them.",
		Quick:    225000,
		Thorough: 1800000,
	}, func(t *rapid.T) *sim.Case {
		g := sim.Gen{
			Max:         map[string]int{sim.Aggregate: 2, sim.Process: 3, sim.Integration: 2, sim.Projection: 2},
			Large:       60,
			MaxMessages: 24,
			MaxOps:      5,
			Ops:         []string{sim.Log, sim.Destroy},
		}.Defaults()
		if sim.OneIn(t, 3) {
			g.Ops = append(g.Ops, sim.Fail, sim.End, sim.RouteIgnore)
		}
		c := &sim.Case{App: g.App(t)}
		c.Ops = g.History(t, c.App, 1, 4, []string{"dispatch", "dispatch", "tick"}, 8)
		return c
	}, func(cp **sim.Case, st *prop.Stats) error {
		c := *cp
		w, results := run(c)
		if err := noPanics(results); err != nil {
			return err
		}
		return checkOrder(c, w.Trace(), st)
	})
}

// checkOrder verifies that commands and events are handled in the order they
// are produced, and that one message is handled at a time.
func checkOrder(c *sim.Case, trace []*sim.Entry, st *prop.Stats) error {
	all := calls(c.App, trace)

	for i, op := range c.Ops {
		var (
			produced = map[int]int{} // message key -> position in production order
			handled  []*sim.Msg
			seen     = map[int]bool{}
			last     *sim.Msg
			open     *call
			multi    bool
			count    int
		)

		if op.K == "dispatch" {
			produced[op.M.K] = len(produced)
		}

		// This also considers messages that nobody handles.
		var announced []*sim.Msg

		for _, e := range trace {
			if e.Op != i {
				continue
			}
			switch e.Kind {
			case sim.Done:
				if isProduction(e.Do.K) && e.Do.M.T[0] != 'T' {
					produced[e.Do.M.K] = len(produced)
				}
			case sim.Fact:
				if f, ok := e.Fact.(fact.DispatchBegun); ok {
					announced = append(announced, asContent(f.Envelope.Message))
				}
			}
		}

		for _, x := range callsOf(all, i) {
			if len(x.produced("CE")) > 1 {
				multi = true
			}
			if x.M == nil {
				continue
			}
			if open != nil && open.end != nil && open.end.Seq > x.Seq {
				return fmt.Errorf("operation %d: %s.%s(#%d) was called while %s.%s(#%d) was in progress", i, x.H, x.Method, x.M.K, open.H, open.Method, open.M.K)
			}
			open = x
			if last == nil || last.K != x.M.K {
				if seen[x.M.K] {
					return fmt.Errorf("operation %d: handling of message #%d was interrupted by other messages\n%s", i, x.M.K, traceText(trace, i))
				}
				seen[x.M.K] = true
				last = x.M
				handled = append(handled, x.M)
			}
		}

		for what, list := range map[string][]*sim.Msg{"handled": handled, "announced": announced} {
			prev := -1
			for _, m := range list {
				if m.T[0] == 'T' {
					continue
				}
				pos, ok := produced[m.K]
				if !ok {
					return fmt.Errorf("operation %d: message #%d was %s but never produced", i, m.K, what)
				}
				if pos < prev {
					return fmt.Errorf("operation %d: message #%d was %s out of order\n%s", i, m.K, what, traceText(trace, i))
				}
				prev = pos
				count++
			}
		}

		for _, x := range callsOf(all, i) {
			st.ClassIf(x.end != nil && x.end.Err != nil && len(x.produced("CE")) > 0, "messages of a handler call that fails")
		}
		st.NonTrivial(multi && len(handled) >= 3)
		st.ClassIf(len(handled) >= 6, "6+ messages handled in one operation")
		st.ClassIf(op.K == "tick" && len(handled) >= 3, "3+ messages handled in one tick")
	}

	return nil
}
