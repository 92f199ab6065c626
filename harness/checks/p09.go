package checks

import (
	"fmt"
	"strings"

	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

func init() {
	prop.Register("P09", prop.Options{
		Rule: "A case is an application, some of whose handlers are disabled by configuration, and a history of dispatches and ticks with sequences of up to 6 options that enable and disable handlers individually and by type, some naming unknown handlers. " +
			"It is non-trivial if, in some operation, one handler runs and another is skipped.",
		Quick:    300000,
		Thorough: 1800000,
	}, func(t *rapid.T) *sim.Case {
		g := sim.Gen{
			Max:          map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 2, sim.Projection: 2},
			MaxMessages:  10,
			Disabled:     true,
			NumInstances: 2,
			Times:        []int64{0, 1000, 2000, 3000, 4000, 3600000, 3601000},
			Schedule:     2,
			Ops:          []string{sim.Destroy, sim.End, sim.RouteIgnore},
		}.Defaults()
		c := &sim.Case{App: g.App(t)}
		c.Ops = g.History(t, c.App, 1, 7, []string{"dispatch", "dispatch", "dispatch", "tick", "tick"}, 0)
		for _, op := range c.Ops {
			if !sim.OneIn(t, 3) {
				op.Opts = g.Opts(t, c.App, 6)
			}
			if sim.OneIn(t, 12) {
				i := sim.Int(t, 0, len(op.Opts))
				op.Opts = append(
					append(append([]sim.Opt(nil), op.Opts[:i]...), sim.Opt{Name: "unknown-handler", On: rapid.Bool().Draw(t, "on")}),
					op.Opts[i:]...,
				)
			}
		}
		return c
	}, func(cp **sim.Case, st *prop.Stats) error {
		c := *cp

		// Operations that name unknown handlers must have no effect, so they
		// are otherwise not considered.
		valid := &sim.Case{App: c.App}
		w := sim.NewEngine(c.App, engine.EnableProjectionCompactionDuringHandling(false))
		var results []sim.Result

		for i, op := range c.Ops {
			unknown := false
			for _, o := range op.Opts {
				if o.Type == "" && c.App.Handler(o.Name) == nil {
					unknown = true
				}
			}
			if unknown {
				st.Class("unknown handler")
				n := w.Len()
				res := w.Run(-1, op)
				if !res.Panicked {
					return fmt.Errorf("operation %d: did not panic, even though it names an unknown handler", i)
				}
				if s := fmt.Sprint(res.Panic); !strings.Contains(s, "unknown-handler") {
					return fmt.Errorf("operation %d: the panic does not mention the unknown handler: %s", i, s)
				}
				if w.Len() != n {
					return fmt.Errorf("operation %d: it has an effect, even though it names an unknown handler", i)
				}
				continue
			}
			results = append(results, w.Run(len(valid.Ops), op))
			valid.Ops = append(valid.Ops, op)
		}

		if err := noErrors(results); err != nil {
			return err
		}

		trace := w.Trace()
		if err := checkSkips(valid, trace, st); err != nil {
			return err
		}

		// Verify that handlers that are enabled do run, and that the state and
		// timeouts of those that are not enabled are unchanged.
		ignored := &prop.Stats{}
		if err := checkDelivery(valid, trace, ignored); err != nil {
			return err
		}
		if err := checkAggregates(valid, trace, ignored); err != nil {
			return err
		}
		if err := checkProcesses(valid, trace, nil, ignored); err != nil {
			return err
		}
		if err := checkTimeouts(valid, trace, ignored); err != nil {
			return err
		}
		return checkCompaction(valid, trace, results, ignored)
	})
}

// checkSkips verifies that exactly the enabled handlers are called, and that
// the others are announced as skipped.
func checkSkips(c *sim.Case, trace []*sim.Entry, st *prop.Stats) error {
	for i, op := range c.Ops {
		var ran, skipped bool

		bad := func(f string, args ...any) error {
			return fmt.Errorf("operation %d (options: %+v): %s\n%s", i, op.Opts, fmt.Sprintf(f, args...), traceText(trace, i))
		}

		type counts struct{ skipped, begun, completed int }
		var (
			ticks    = map[string]*counts{}
			handling = map[delivery]*counts{}
			messages []*sim.Msg
			origin   = map[int]string{}
		)
		tick := func(h string) *counts {
			if ticks[h] == nil {
				ticks[h] = &counts{}
			}
			return ticks[h]
		}
		handle := func(h string, m *sim.Msg) *counts {
			k := delivery{m.K, h}
			if handling[k] == nil {
				handling[k] = &counts{}
			}
			return handling[k]
		}
		reason := func(name string, r fact.HandlerSkipReason) error {
			h := c.App.Handler(name)
			if h == nil {
				return bad("unknown handler %q was skipped", name)
			}
			en, expect := sim.Enabled(h, op.Opts)
			if en {
				return bad("%s was skipped, even though it is enabled", name)
			}
			if r != expect {
				return bad("%s was skipped for reason %q, expected %q", name, r, expect)
			}
			skipped = true
			st.Class(fmt.Sprintf("skipped for reason %q", expect))
			return nil
		}

		for _, e := range trace {
			if e.Op != i {
				continue
			}

			if e.Kind == sim.Call {
				ran = true
				if en, _ := sim.Enabled(c.App.Handler(e.H), op.Opts); !en {
					return bad("%s.%s() was called, even though it is disabled", e.H, e.Method)
				}
			}

			if e.Kind != sim.Fact {
				continue
			}

			switch f := e.Fact.(type) {
			case fact.DispatchBegun:
				m := asContent(f.Envelope.Message)
				messages = append(messages, m)
				if m.T[0] == 'T' {
					origin[m.K] = f.Envelope.Origin.Handler.Identity().Name
				}
			case fact.HandlingSkipped:
				if err := reason(f.Handler.Identity().Name, f.Reason); err != nil {
					return err
				}
				handle(f.Handler.Identity().Name, asContent(f.Envelope.Message)).skipped++
			case fact.HandlingBegun:
				handle(f.Handler.Identity().Name, asContent(f.Envelope.Message)).begun++
			case fact.HandlingCompleted:
				handle(f.Handler.Identity().Name, asContent(f.Envelope.Message)).completed++
			case fact.TickSkipped:
				if err := reason(f.Handler.Identity().Name, f.Reason); err != nil {
					return err
				}
				tick(f.Handler.Identity().Name).skipped++
			case fact.TickBegun:
				tick(f.Handler.Identity().Name).begun++
			case fact.TickCompleted:
				tick(f.Handler.Identity().Name).completed++
			}
		}

		compare := func(what string, h *sim.Handler, got *counts) error {
			want := counts{0, 1, 1}
			if en, _ := sim.Enabled(h, op.Opts); !en {
				want = counts{1, 0, 0}
			}
			if *got != want {
				return bad("%s: %s is announced to be skipped/begun/completed %v, expected %v", what, h.Name, *got, want)
			}
			return nil
		}

		for _, h := range c.App.Handlers {
			if op.K == "tick" {
				if err := compare("tick", h, tick(h.Name)); err != nil {
					return err
				}
			}
		}

		for _, m := range messages {
			handlers := c.App.ConsumersOf(m.T)
			if m.T[0] == 'T' {
				handlers = []*sim.Handler{c.App.Handler(origin[m.K])}
			}
			for _, h := range handlers {
				if err := compare(fmt.Sprintf("message #%d", m.K), h, handle(h.Name, m)); err != nil {
					return err
				}
				delete(handling, delivery{m.K, h.Name})
			}
		}
		for k := range handling {
			return bad("message #%d: %s takes part, although it does not consume the message", k.K, k.H)
		}

		st.NonTrivial(ran && skipped)
		for _, o := range op.Opts {
			if h := c.App.Handler(o.Name); h != nil {
				st.ClassIf(h.Disabled && o.On, "override of disabled configuration")
			}
		}
	}

	return nil
}
