package checks

import (
	"fmt"
	"slices"

	"github.com/dogmatiq/testkit/envelope"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

func init() {
	prop.Register("P02", prop.Options{
		Rule: "A case is an application and a history of dispatches, ticks and resets at varying engine times, a few of which involve thousands of messages. " +
			"It is non-trivial if some message is at least two causal steps away from the message that was given to the engine.",
		Quick:    140000,
		Thorough: 1400000,
	}, func(t *rapid.T) *sim.Case {
		g := sim.Gen{
			Max:         map[string]int{sim.Aggregate: 2, sim.Process: 3, sim.Integration: 2, sim.Projection: 2},
			Large:       60,
			MaxMessages: 20,
			Ops:         []string{sim.Destroy, sim.End, sim.Log, sim.RouteIgnore, sim.Fail},
		}.Defaults()
		c := &sim.Case{App: g.App(t)}
		c.Ops = g.History(t, c.App, 1, 6, []string{"dispatch", "dispatch", "dispatch", "tick", "tick", "tick", "reset"}, 6)
		if sim.OneIn(t, 1500) {
			c.Ops = g.Flood(slices.DeleteFunc(c.Ops, func(op *sim.EngineOp) bool { return op.K == "reset" }), sim.Int(t, 100, 3000), true)
		}
		return c
	}, func(cp **sim.Case, st *prop.Stats) error {
		c := *cp
		w, results := run(c)
		if err := noPanics(results); err != nil {
			return err
		}
		return checkEnvelopes(c, w.Trace(), st)
	})
}

// checkEnvelopes verifies the content of every envelope.
func checkEnvelopes(c *sim.Case, trace []*sim.Entry, st *prop.Stats) error {
	type origin struct {
		parent    *sim.Msg // nil if dispatched
		h         *sim.Handler
		inst      string
		op        int
		scheduled int64
		depth     int
	}

	var (
		origins = map[int]*origin{}            // by message key
		first   = map[int]*envelope.Envelope{} // by message key
		owner   = map[string]int{}             // message ID -> message key
		all     = map[int]*call{}
	)

	for _, x := range calls(c.App, trace) {
		all[x.Call] = x
		for _, d := range x.done {
			if isProduction(d.Do.K) {
				o := &origin{parent: x.M, h: x.spec, op: x.Op, scheduled: d.Do.At}
				if x.spec.Type == sim.Aggregate || x.spec.Type == sim.Process {
					// The instance ID is what the handler routed the message
					// to. Timeouts belong to the instance that scheduled them.
					o.inst = x.M.I
					if x.M.T[0] == 'T' {
						o.inst = origins[x.M.K].inst
					}
				}
				if p, ok := origins[x.M.K]; ok {
					o.depth = p.depth + 1
				} else {
					o.depth = 1
				}
				st.NonTrivial(o.depth >= 2)
				st.ClassIf(o.depth >= 4, "causal depth 4+")
				origins[d.Do.M.K] = o
			}
		}
	}
	for i, op := range c.Ops {
		if op.K == "dispatch" {
			origins[op.M.K] = &origin{op: i}
		}
	}

	check := func(env *envelope.Envelope, op int) error {
		m := asContent(env.Message)
		if m == nil {
			return fmt.Errorf("operation %d: envelope contains an unknown message: %v", op, env.Message)
		}
		k := m.K

		bad := func(f string, args ...any) error {
			return fmt.Errorf("operation %d: envelope of message #%d (%+v): %s\n%s", op, k, env, fmt.Sprintf(f, args...), traceText(trace, op))
		}

		if env.MessageID == "" {
			return bad("has no message ID")
		}

		if x, ok := first[k]; ok {
			if x.MessageID != env.MessageID ||
				x.CausationID != env.CausationID ||
				x.CorrelationID != env.CorrelationID ||
				!x.CreatedAt.Equal(env.CreatedAt) ||
				!x.ScheduledFor.Equal(env.ScheduledFor) ||
				x.Message != env.Message ||
				(x.Origin == nil) != (env.Origin == nil) {
				return bad("differs from an earlier envelope of the same message (%+v)", x)
			}
			if env.Origin == nil || x.Origin == env.Origin {
				return nil
			}
			if *x.Origin != *env.Origin {
				return bad("origin differs from an earlier envelope of the same message")
			}
			return nil
		}
		first[k] = env

		if other, ok := owner[env.MessageID]; ok && other != k {
			return bad("has the same ID as message #%d", other)
		}
		owner[env.MessageID] = k

		o := origins[k]
		if o == nil {
			return bad("was not produced by anything")
		}

		if !env.CreatedAt.Equal(sim.At(c.Ops[o.op].Now)) {
			return bad("was not created at the engine time of the operation that produced it")
		}

		if o.parent == nil {
			if env.CausationID != env.MessageID {
				return bad("is not its own cause")
			}
			if env.CorrelationID != env.MessageID {
				return bad("is not correlated with itself")
			}
			if env.Origin != nil {
				return bad("has an origin")
			}
			return nil
		}

		p := first[o.parent.K]
		if p == nil {
			return bad("is produced while handling a message that was never mentioned")
		}
		if env.CausationID != p.MessageID {
			return bad("is caused by %q, expected %q", env.CausationID, p.MessageID)
		}
		if env.CorrelationID != p.CorrelationID {
			return bad("is correlated with %q, expected %q", env.CorrelationID, p.CorrelationID)
		}
		if env.Origin == nil {
			return bad("has no origin")
		}
		if env.Origin.Handler == nil || env.Origin.Handler.Identity().Name != o.h.Name {
			return bad("has the wrong origin, expected %s", o.h.Name)
		}
		if env.Origin.HandlerType != o.h.HandlerType() {
			return bad("has the wrong origin handler type")
		}
		if env.Origin.InstanceID != o.inst {
			return bad("originates from instance %q, expected %q", env.Origin.InstanceID, o.inst)
		}
		if k := m.T[0]; k == 'T' && !env.ScheduledFor.Equal(sim.At(o.scheduled)) {
			return bad("is scheduled for the wrong time, expected %s", sim.At(o.scheduled))
		}
		return nil
	}

	fired := false
	for _, e := range trace {
		switch e.Kind {
		case sim.Reset:
			owner = map[string]int{}
			st.Class("reset")
		case sim.Fact:
			a, b := envelopes(e.Fact)
			if a != nil {
				if err := check(a, e.Op); err != nil {
					return err
				}
			}
			if b != nil {
				if err := check(b, e.Op); err != nil {
					return err
				}
			}
		case sim.Call:
			x := all[e.Call]
			if !x.isHandle() {
				continue
			}
			env := first[e.M.K]
			if env == nil {
				return fmt.Errorf("operation %d: %s was given message #%d, which is not the subject of any fact", e.Op, e.H, e.M.K)
			}
			switch x.spec.Type {
			case sim.Process, sim.Projection:
				expect := env.CreatedAt
				if e.Method == "HandleTimeout" {
					fired = fired || origins[e.M.K].op != e.Op
					expect = env.ScheduledFor
				}
				if !e.Time.Equal(expect) {
					return fmt.Errorf("operation %d: %s.%s(#%d) saw the time %s, expected %s", e.Op, e.H, e.Method, e.M.K, e.Time, expect)
				}
			}
			if x.spec.Type == sim.Process || x.spec.Type == sim.Aggregate {
				inst := e.M.I
				if e.M.T[0] == 'T' {
					inst = origins[e.M.K].inst
				}
				if e.Inst != inst {
					return fmt.Errorf("operation %d: %s.%s(#%d) saw the instance ID %q, expected %q", e.Op, e.H, e.Method, e.M.K, e.Inst, inst)
				}
			}
		}
	}
	st.ClassIf(len(owner) >= 1000, "1000+ messages")
	st.ClassIf(fired, "timeout fired in a later operation")

	return nil
}
