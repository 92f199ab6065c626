package checks

import (
	"fmt"

	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

func processGen(ops ...string) *sim.Gen {
	return sim.Gen{
		Min:          map[string]int{sim.Process: 1},
		Max:          map[string]int{sim.Aggregate: 1, sim.Process: 3, sim.Integration: 2, sim.Projection: 0},
		Large:        80,
		MaxMessages:  10,
		MaxOps:       5,
		NumInstances: 2,
		Times:        []int64{0, 1000, 1001, 2000, 2000, 2001, 3000, 4000},
		Ops:          ops,
	}.Defaults()
}

func init() {
	prop.Register("P05", prop.Options{
		Rule: "A case is an application with processes and a history of events, ticks and resets, with handlers that fail. " +
			"It is non-trivial if some process instance handles at least two messages.",
		Quick:    210000,
		Thorough: 1400000,
	}, func(t *rapid.T) *sim.Case {
		g := processGen(sim.End, sim.End, sim.Fail, sim.RouteIgnore, sim.RouteFail, sim.Log)
		c := &sim.Case{App: g.App(t)}
		c.Ops = g.History(t, c.App, 2, 9, []string{
			"dispatch", "dispatch", "dispatch", "dispatch", "dispatch", "dispatch",
			"tick", "tick", "tick", "reset",
		}, 8)
		return c
	}, func(cp **sim.Case, st *prop.Stats) error {
		c := *cp
		w, results := run(c)
		if err := noPanics(results); err != nil {
			return err
		}
		return checkProcesses(c, w.Trace(), nil, st)
	})
}

// checkProcesses verifies the lifecycle of process instances.
//
// The operations in aborted were not completed.
func checkProcesses(c *sim.Case, trace []*sim.Entry, aborted map[int]bool, st *prop.Stats) error {
	type state struct {
		rootID int
		root   []int
	}

	var (
		live      = map[instance]state{}
		ended     = map[instance]bool{}
		usedRoots = map[int]bool{}
		visits    = map[instance]int{}
		byID      = map[int]*call{}
		scheduled = map[int]instance{} // timeout -> instance
		void      = map[int]bool{}     // messages that must never be delivered
		expected  = map[int]int{}      // commands that must be delivered -> operation
		delivered = map[int]int{}
		routed    = map[delivery]*call{}
	)

	for _, x := range calls(c.App, trace) {
		byID[x.Call] = x
	}

	for _, e := range trace {
		if e.Kind == sim.Reset {
			live = map[instance]state{}
			ended = map[instance]bool{}
			continue
		}
		if e.Kind != sim.Call {
			continue
		}

		x := byID[e.Call]

		bad := func(f string, args ...any) error {
			return fmt.Errorf("operation %d: %s.%s(#%d), instance %q: %s\n%s", e.Op, e.H, e.Method, e.M.K, e.Inst, fmt.Sprintf(f, args...), traceText(trace, e.Op))
		}

		if x.isDelivery() {
			if void[e.M.K] {
				return bad("the message was produced by a handler call that failed")
			}
			delivered[e.M.K]++
		}

		if x.spec.Type != sim.Process {
			continue
		}

		var k instance
		switch e.Method {
		case "RouteEventToInstance":
			routed[delivery{e.M.K, e.H}] = x
			continue
		case "HandleEvent":
			r := routed[delivery{e.M.K, e.H}]
			if r == nil || r.failed() {
				return bad("the event was not routed")
			}
			if !r.end.OK {
				return bad("the event was ignored")
			}
			k = instance{e.H, r.end.ID}
		case "HandleTimeout":
			var ok bool
			k, ok = scheduled[e.M.K]
			if !ok || k.h != e.H {
				return bad("the timeout was not scheduled by this handler")
			}
			if _, ok := live[k]; !ok {
				return bad("the instance that scheduled the timeout is not live")
			}
		}

		if e.Inst != k.id {
			return bad("expected instance %q", k.id)
		}

		visits[k]++
		st.ClassIf(x.spec.Root != "", "root of kind "+x.spec.Root)
		st.NonTrivial(visits[k] >= 2)

		s, exists := live[k]
		if exists {
			if !equalInts(s.root, e.Root) {
				return bad("was given a root that contains %v, expected %v", e.Root, s.root)
			}
			st.ClassIf(len(s.root) >= 3, "instance with 3+ earlier messages")
		} else {
			if e.RootID != 0 && usedRoots[e.RootID] || len(e.Root) != 0 {
				return bad("was given a root that is not fresh")
			}
			st.ClassIf(ended[k], "instance begun again")
		}
		usedRoots[e.RootID] = true

		if x.failed() {
			for _, m := range x.produced("CT") {
				void[m.K] = true
			}
			st.ClassIf(exists, "failure of live instance")
			st.ClassIf(!exists, "failure of new instance")
			st.ClassIf(len(x.produced("CT")) > 0, "failure after producing messages")
			continue
		}

		end := endsInstance(x.done)

		for _, m := range x.produced("C") {
			for _, h := range c.App.ConsumersOf(m.T) {
				if en, _ := sim.Enabled(h, c.Ops[e.Op].Opts); en && !aborted[e.Op] {
					expected[m.K] = e.Op
				}
			}
		}

		for _, m := range x.produced("T") {
			scheduled[m.K] = k
			if end {
				void[m.K] = true
			}
		}

		if end {
			st.ClassIf(exists, "live instance ended")
			st.ClassIf(!exists, "instance ended as soon as it began")
			ended[k] = true
			delete(live, k)
		} else {
			for _, d := range x.done {
				st.ClassIf(d.Do.K == sim.End, "ending reverted")
			}
			live[k] = state{x.end.RootID, x.end.Root}
		}
	}

	// Each event must be handled by the handlers that route it.
	for k, r := range routed {
		if aborted[r.Op] {
			continue
		}
		n := 0
		for _, x := range byID {
			if x.Method == "HandleEvent" && x.M.K == k.K && x.H == k.H {
				n++
			}
		}
		want := 0
		if !r.failed() && r.end.OK {
			want = 1
		}
		if n != want {
			return fmt.Errorf("event #%d was handled by %s %d time(s), expected %d", k.K, k.H, n, want)
		}
	}

	for k, op := range expected {
		if delivered[k] != 1 {
			return fmt.Errorf("operation %d: command #%d was executed by a process, but delivered %d time(s)\n%s", op, k, delivered[k], traceText(trace, op))
		}
	}

	return nil
}
