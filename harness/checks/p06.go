package checks

import (
	"fmt"

	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

func init() {
	prop.Register("P06", prop.Options{
		Rule: "A case is an application with processes that share timeout types and a history of events and ticks at arbitrary engine times, some with handlers disabled. " +
			"It is non-trivial if at least two timeouts are scheduled and one is handled in an operation other than the one that scheduled it.",
		Quick:    175000,
		Thorough: 1400000,
		Assumptions: []string{
			"Whether an already-due timeout is handled after its instance ended and began again within the same operation is not judged, as beginning an ended instance again is documented as undefined behavior.",
		},
	}, func(t *rapid.T) *sim.Case {
		g := processGen(sim.End, sim.Fail, sim.RouteIgnore)
		g.Schedule = 6
		if rapid.Bool().Draw(t, "simple") {
			g.Ops = []string{sim.End}
		}
		if rapid.Bool().Draw(t, "far") {
			g.Times = []int64{0, 1000, 1001, 2000, 3600000, 400 * 24 * 3600 * 1000}
		} else {
			g.Times = []int64{0, 1000, 2000, 3000, 4000, 4001, 5000, 6000}
			if sim.OneIn(t, 3) {
				// Times that differ by nanoseconds only.
				g.Times = []int64{997, 998, 999, 1000, 1001, 1002, 1003, 2000}
			}
		}
		c := &sim.Case{App: g.App(t)}
		for _, h := range c.App.Handlers {
			if h.Type == sim.Process && len(h.Timeouts) == 0 && !sim.OneIn(t, 4) {
				h.Timeouts = sim.Subset(t, sim.Timeouts, 1)
			}
		}
		c.Ops = g.History(t, c.App, 3, 10, []string{
			"dispatch", "dispatch", "dispatch", "tick", "tick", "tick",
		}, 5)
		return c
	}, func(cp **sim.Case, st *prop.Stats) error {
		c := *cp
		w, results := run(c)
		if err := noPanics(results); err != nil {
			return err
		}
		return checkTimeouts(c, w.Trace(), st)
	})
}

// checkTimeouts verifies when timeouts are handled.
func checkTimeouts(c *sim.Case, trace []*sim.Entry, st *prop.Stats) error {
	type timeout struct {
		m         *sim.Msg
		k         instance
		gen       int // incarnation of the instance
		at        int64
		op        int
		immediate bool
		handled   bool
		cancelled bool
	}

	var (
		all      = calls(c.App, trace)
		live     = map[instance]bool{}
		gen      = map[instance]int{}
		timeouts = map[int]*timeout{}
		order    []*timeout
	)

	for i, op := range c.Ops {
		var (
			mustFire []*timeout
			inTick   = map[string][]*timeout{}
			started  = map[int]bool{}
		)

		if op.K == "reset" {
			clear(live)
			for _, to := range order {
				to.cancelled = true
				to.immediate = false
			}
		}

		if op.K == "tick" {
			for _, to := range order {
				h := c.App.Handler(to.k.h)
				if en, _ := sim.Enabled(h, op.Opts); !en {
					st.Class("tick with timeouts of disabled handler")
					continue
				}
				if !to.handled && !to.cancelled && to.at <= op.Now {
					mustFire = append(mustFire, to)
					started[to.m.K] = true
				}
			}
			st.ClassIf(len(mustFire) >= 2, "2+ timeouts due in one tick")
		}

		for _, x := range callsOf(all, i) {
			if x.spec.Type != sim.Process || !x.isHandle() {
				continue
			}

			bad := func(f string, args ...any) error {
				return fmt.Errorf("operation %d (%s at %d): %s.%s(#%d), instance %q: %s\n%s", i, op.K, op.Now, x.H, x.Method, x.M.K, x.Inst, fmt.Sprintf(f, args...), traceText(trace, -1))
			}

			k := instance{x.H, x.Inst}

			if x.Method == "HandleTimeout" {
				to := timeouts[x.M.K]
				if to == nil {
					return bad("the timeout was never scheduled")
				}
				if to.handled {
					return bad("the timeout was already handled")
				}
				to.handled = true

				if to.k != k {
					return bad("the timeout was scheduled by instance %q of %s", to.k.id, to.k.h)
				}
				if op.Now < to.at {
					return bad("the timeout is scheduled for %d", to.at)
				}
				if to.cancelled && !to.immediate {
					return bad("the timeout was cancelled because the instance ended")
				}
				if to.cancelled && !live[k] {
					return bad("the timeout belongs to an instance that has ended")
				}

				if to.immediate {
					if to.op != i {
						return bad("the timeout was due when it was scheduled in operation %d", to.op)
					}
					st.Class("timeout due when scheduled")
				} else {
					if op.K != "tick" || !started[x.M.K] {
						return bad("the timeout was handled other than in the first tick after it was due")
					}
					if list := inTick[x.H]; len(list) > 0 {
						if prev := list[len(list)-1]; prev.at > to.at {
							return bad("the timeout was scheduled for %d, but handled after timeout #%d, scheduled for %d", to.at, prev.m.K, prev.at)
						}
					}
					inTick[x.H] = append(inTick[x.H], to)
					st.NonTrivial(len(timeouts) >= 2)
				}
			}

			if x.failed() {
				continue
			}

			if endsInstance(x.done) {
				if live[k] {
					delete(live, k)
					gen[k]++
					for _, to := range order {
						if to.k == k && !to.handled {
							st.ClassIf(!to.cancelled, "timeout cancelled")
							to.cancelled = true
						}
					}
				}
				continue
			}

			live[k] = true

			for _, d := range x.done {
				if d.Do.K == sim.Schedule {
					to := &timeout{
						m:         d.Do.M,
						k:         k,
						gen:       gen[k],
						at:        d.Do.At,
						op:        i,
						immediate: d.Do.At <= op.Now,
					}
					timeouts[d.Do.M.K] = to
					order = append(order, to)
					if to.immediate {
						mustFire = append(mustFire, to)
					}
				}
			}
		}

		for _, to := range mustFire {
			if !to.handled && !to.cancelled {
				return fmt.Errorf("operation %d (%s at %d): timeout #%d of %v, scheduled for %d, was not handled\n%s", i, op.K, op.Now, to.m.K, to.k, to.at, traceText(trace, -1))
			}
		}
	}

	return nil
}
