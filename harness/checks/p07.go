package checks

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

func projectionGen(ops ...string) *sim.Gen {
	return sim.Gen{
		Min:                map[string]int{sim.Projection: 1},
		Max:                map[string]int{sim.Aggregate: 1, sim.Process: 0, sim.Integration: 1, sim.Projection: 3},
		Large:              60,
		MaxMessages:        8,
		MaxOps:             5,
		ProjectionOutcomes: true,
		Ops:                ops,
	}.Defaults()
}

func init() {
	prop.Register("P07", prop.Options{
		Rule: "A case is an application with projections, each step of which succeeds, conflicts, fails or reports that the event was already applied as dictated by the case, and a history of events. " +
			"It is non-trivial if at least two events are delivered to one projection and some step does other than succeed.",
		Quick:    270000,
		Thorough: 1800000,
	}, func(t *rapid.T) *sim.Case {
		g := projectionGen(sim.Conflict, sim.Fail, sim.Log)
		c := &sim.Case{
			App:     g.App(t),
			Compact: sim.OneIn(t, 3),
		}
		c.Ops = g.History(t, c.App, 1, 6, []string{"dispatch", "dispatch", "dispatch", "dispatch", "tick", "reset"}, 8)
		return c
	}, func(cp **sim.Case, st *prop.Stats) error {
		c := *cp
		w, results := run(c)
		if err := noPanics(results); err != nil {
			return err
		}
		return checkProjections(c, w.Trace(), results, st)
	})
}

// checkProjections verifies that projections are called in accordance with the
// OCC protocol.
func checkProjections(c *sim.Case, trace []*sim.Entry, results []sim.Result, st *prop.Stats) error {
	var (
		all       = calls(c.App, trace)
		resources = map[string]int{} // resource -> event, since last reset
		events    = map[string]int{} // events delivered per projection
	)

	for i, op := range c.Ops {
		if op.K == "reset" {
			resources = map[string]int{}
		}

		// expected holds the events that are to be delivered to each
		// projection, in order of their production.
		expected := map[string][]*sim.Msg{}
		want := func(m *sim.Msg) {
			for _, h := range c.App.ConsumersOf(m.T) {
				if en, _ := sim.Enabled(h, op.Opts); en && h.Type == sim.Projection {
					expected[h.Name] = append(expected[h.Name], m)
				}
			}
		}
		if op.K == "dispatch" {
			want(op.M)
		}
		cs := callsOf(all, i)
		others := map[string]bool{}
		for _, x := range cs {
			if x.isHandle() && x.spec.Type != sim.Projection {
				if x.failed() {
					// Events recorded by a failed integration may or may not be
					// published.
					others[x.end.Err.Error()] = true
					if len(x.produced("E")) > 0 {
						goto next
					}
					continue
				}
				for _, m := range x.produced("E") {
					want(m)
				}
			}
		}

		for _, h := range c.App.Handlers {
			if h.Type != sim.Projection {
				continue
			}

			var mine []*call
			for _, x := range cs {
				if x.H == h.Name && x.Method != "Compact" {
					mine = append(mine, x)
				}
			}

			take := func() *call {
				if len(mine) == 0 {
					return nil
				}
				x := mine[0]
				mine = mine[1:]
				return x
			}

			for _, m := range expected[h.Name] {
				events[h.Name]++

				bad := func(f string, args ...any) error {
					return fmt.Errorf("operation %d: event #%d, projection %s: %s\n%s", i, m.K, h.Name, fmt.Sprintf(f, args...), traceText(trace, i))
				}
				fails := func(err error) error {
					st.NonTrivial(events[h.Name] >= 2)
					if results[i].Err == nil || !strings.Contains(results[i].Err.Error(), err.Error()) {
						return bad("the operation does not report %q, got %v", err, results[i].Err)
					}
					others[err.Error()] = true
					return nil
				}

				rv := take()
				if rv == nil || rv.Method != "ResourceVersion" {
					return bad("the resource version was not queried first")
				}
				if rv.Resource == "" {
					return bad("the resource is empty")
				}
				if k, ok := resources[rv.Resource]; ok && k != m.K {
					return bad("the resource %q was already used for event #%d", rv.Resource, k)
				}
				resources[rv.Resource] = m.K

				if rv.end.Err != nil {
					st.Class("version query failed")
					if err := fails(rv.end.Err); err != nil {
						return err
					}
					continue
				}
				if len(rv.end.Current) != 0 {
					st.Class("already applied")
					st.NonTrivial(events[h.Name] >= 2)
					continue
				}

				he := take()
				if he == nil || he.Method != "HandleEvent" || he.M.K != m.K {
					return bad("the event was not applied after querying the version")
				}
				if he.Resource != rv.Resource {
					return bad("the event was applied to resource %q, but the version of %q was queried", he.Resource, rv.Resource)
				}
				if len(he.Current) != 0 {
					return bad("the event was applied with a current version of %q", he.Current)
				}
				if len(he.Next) == 0 {
					return bad("the event was applied without a next version")
				}
				if he.end.Err != nil {
					st.Class("apply failed")
					if err := fails(he.end.Err); err != nil {
						return err
					}
					continue
				}
				if !he.end.OK {
					st.Class("conflict")
					st.NonTrivial(events[h.Name] >= 2)
					continue
				}

				cl := take()
				if cl == nil || cl.Method != "CloseResource" {
					return bad("the resource was not closed")
				}
				if cl.Resource != rv.Resource {
					return bad("resource %q was closed instead of %q", cl.Resource, rv.Resource)
				}
				if cl.end.Err != nil {
					st.Class("close failed")
					if err := fails(cl.end.Err); err != nil {
						return err
					}
				}
			}

			if x := take(); x != nil {
				return fmt.Errorf("operation %d: unexpected call of %s.%s(%q)\n%s", i, x.H, x.Method, x.Resource, traceText(trace, i))
			}
		}

		// Nothing else may be reported, except for failed compactions.
		for _, err := range scriptedErrors(results[i].Err) {
			if !others[err.Error()] && !strings.HasPrefix(err.Error(), "<compact ") {
				return fmt.Errorf("operation %d: unexpected error %q", i, err)
			}
		}
		if results[i].Err != nil && len(scriptedErrors(results[i].Err)) == 0 {
			return fmt.Errorf("operation %d: unexpected error %q", i, results[i].Err)
		}
	next:
	}

	return nil
}
