package checks

import (
	"context"
	"fmt"
	"slices"
	"strings"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

// p31Case is either a history of operations on an engine, or a test.
type p31Case struct {
	*sim.Case
	Test *tk.Case `json:",omitempty"`

	// Intercept is true if commands executed by the test pass through an
	// interceptor.
	Intercept bool `json:",omitempty"`
}

type p31Key struct{}

func init() {
	prop.Register("P31", prop.Options{
		Rule: "A case is an application and either a history of dispatches and ticks with contexts of several kinds, some of which are cancelled while a message is being handled, or a test of dispatched messages, advances of time and calls that execute commands, some of them intercepted. " +
			"It is non-trivial if handlers of at least two types, or a handler and an interceptor, are given contexts.",
		Quick:    120000,
		Thorough: 900000,
	}, func(t *rapid.T) *p31Case {
		g := sim.Gen{
			Max:                map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 2, sim.Projection: 2},
			MaxMessages:        10,
			NumInstances:       3,
			Times:              []int64{0, 1000, 2000, 3600000},
			Schedule:           2,
			ProjectionOutcomes: true,
			Ops:                []string{sim.Destroy, sim.End, sim.Log, sim.RouteIgnore, sim.Fail, sim.Conflict},
		}.Defaults()

		c := &p31Case{}
		cancel := sim.OneIn(t, 3)
		if cancel {
			g.Ops = append(g.Ops, sim.Cancel)
		}
		if sim.OneIn(t, 3) {
			c.Test = &tk.Case{App: g.App(t)}
			for _, typ := range []string{sim.Integration, sim.Projection} {
				c.Test.Opts = append(c.Test.Opts, sim.Opt{Type: typ, On: !sim.OneIn(t, 4)})
			}
			c.Intercept = rapid.Bool().Draw(t, "intercept")
			for range sim.Int(t, 1, 5) {
				s := &tk.Step{}
				for range sim.Int(t, 1, 2) {
					s.Acts = append(s.Acts, tk.Action(t, g, c.Test.App, []string{tk.Dispatch, tk.Dispatch, tk.By, tk.Call, tk.Call}, 0))
				}
				c.Test.Steps = append(c.Test.Steps, s)
			}
			c.Test.AssignKeys()
			return c
		}

		c.Case = &sim.Case{App: g.App(t), Compact: sim.OneIn(t, 3)}
		c.Ops = g.History(t, c.App, 1, 6, []string{"dispatch", "dispatch", "tick"}, 4)
		for _, op := range c.Ops {
			op.Ctx = sim.Pick(t, sim.Contexts)
		}
		return c
	}, func(cp **p31Case, st *prop.Stats) error {
		if c := *cp; c.Test != nil {
			return c.judgeTest(st)
		} else {
			return c.judgeEngine(st)
		}
	})
}

func (c *p31Case) judgeEngine(st *prop.Stats) error {
	w := sim.NewEngine(c.App, engine.EnableProjectionCompactionDuringHandling(c.Compact))

	for i, op := range c.Ops {
		ctx, cancel := sim.NewContext(op.Ctx)
		w.SetCancel(cancel)

		start := w.Len()
		res := w.RunContext(context.WithValue(ctx, p31Key{}, i), i, op)
		deadline, limited := ctx.Deadline()
		cancelled := ctx.Err() != nil
		trace := w.Trace()[start:]
		cancel()

		if res.Panicked {
			return fmt.Errorf("operation %d panicked: %v", i, res.Panic)
		}

		bad := func(e *sim.Entry, f string, args ...any) error {
			return fmt.Errorf("operation %d (context of kind %q): %s.%s(): %s\n%s", i, op.Ctx, e.H, e.Method, fmt.Sprintf(f, args...), traceText(trace, -1))
		}

		// Contexts other than those of the standard library may be observed
		// asynchronously by contexts that are derived from them.
		std := op.Ctx == sim.CtxPlain || op.Ctx == sim.CtxCause

		for _, e := range trace {
			if e.Ctx == nil {
				continue
			}
			if v := e.Ctx.Value(p31Key{}); v != i {
				return bad(e, "the context carries %v, expected %d", v, i)
			}
			if !cancelled && e.CtxErr != nil {
				return bad(e, "the context is cancelled, the context of the operation is not")
			}
			if std && e.Ctx.Err() == nil {
				return bad(e, "the context is not cancelled, the context of the operation is")
			}
			if limited {
				if d, ok := e.Ctx.Deadline(); !ok || d.After(deadline) {
					return bad(e, "the context does not have the deadline of the operation")
				}
			}
			if std && e.Kind == sim.Return && e.M != nil && cancels(e) && e.CtxErr == nil {
				return bad(e, "the context is not cancelled while the message is handled, even though the context of the operation is")
			}
		}

		st.ClassIf(cancelled, "cancelled during the operation")
		st.Class("context of kind " + op.Ctx)
		if err := p31Scopes(trace); err != nil {
			return fmt.Errorf("operation %d: %w\n%s", i, err, traceText(trace, -1))
		}
		p31Classify(w, trace, st, 0)
	}

	return nil
}

// cancels returns true if the context of the operation was cancelled by the call
// that ended with e.
func cancels(e *sim.Entry) bool {
	if e.Method != "HandleEvent" && e.Method != "HandleCommand" && e.Method != "HandleTimeout" {
		return false
	}
	for _, op := range e.M.Do[e.H] {
		switch op.K {
		case sim.Cancel:
			return true
		case sim.Fail:
			return false
		}
	}
	return false
}

func (c *p31Case) judgeTest(st *prop.Stats) error {
	var (
		r           *tk.Run
		opts        []testkit.TestOption
		intercepted []any
	)
	if c.Intercept {
		opts = append(opts, testkit.InterceptCommandExecutor(
			func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
				v := ctx.Value(tk.CtxKey{})
				intercepted = append(intercepted, v)
				return e.ExecuteCommand(context.WithValue(ctx, p31Key{}, v), m)
			},
		))
	}
	r = tk.Begin(c.Test, opts...)
	defer r.Cancel()

	for i, s := range c.Test.Steps {
		var (
			first = len(r.Ops)
			start = r.World.Len()
		)
		intercepted = nil
		res := r.Step(i, s)
		if res.Panicked {
			return fmt.Errorf("step %d panicked: %v", i, res.Panic)
		}
		trace := r.World.Trace()[start:]

		bad := func(f string, args ...any) error {
			return fmt.Errorf("step %d: %s\n%s", i, fmt.Sprintf(f, args...), traceText(trace, -1))
		}

		for _, e := range trace {
			if e.Ctx == nil {
				continue
			}
			if e.Op < 0 {
				return bad("something happens outside of any action: %s", e)
			}
			v := e.Ctx.Value(tk.CtxKey{})
			ctx := r.Context
			if r.Executed[e.Op] {
				ctx = r.Contexts[e.Op]
				if e.CtxErr != nil {
					return bad("%s.%s() is given a context that is cancelled, the context given to the executor is not", e.H, e.Method)
				}
				if e.Ctx.Err() == nil {
					return bad("%s.%s() is given a context that is not cancelled when the context given to the executor is", e.H, e.Method)
				}
				if v != e.Op {
					return bad("%s.%s() is not given the context that was given to the executor", e.H, e.Method)
				}
				if c.Intercept && e.Ctx.Value(p31Key{}) != e.Op {
					return bad("%s.%s() is not given the context that the interceptor passed on", e.H, e.Method)
				}
			} else if v != r {
				return bad("%s.%s() is not given the context of the test", e.H, e.Method)
			}
			if want, ok := ctx.Deadline(); ok {
				if d, ok := e.Ctx.Deadline(); !ok || d.After(want) {
					return bad("%s.%s() is given a context without the deadline", e.H, e.Method)
				}
			}
			if ctx == r.Context {
				if e.CtxErr != nil && r.Context.Err() == nil {
					return bad("%s.%s() is given a context that is cancelled, the context of the test is not", e.H, e.Method)
				}
				if e.Kind == sim.Return && e.M != nil && cancels(e) && e.CtxErr == nil {
					return bad("%s.%s() is given a context that is not cancelled when the context of the test is", e.H, e.Method)
				}
			}
		}
		st.ClassIf(r.Context.Err() != nil, "cancelled during a test")

		if c.Intercept {
			var want []any
			for n := first; n < len(r.Ops); n++ {
				if r.Executed[n] {
					want = append(want, n)
				}
			}
			if !slices.Equal(intercepted, want) {
				return bad("interceptors are given contexts that carry %v, expected %v", intercepted, want)
			}
		}

		if err := p31Scopes(trace); err != nil {
			return bad("%s", err)
		}
		p31Classify(r.World, trace, st, len(intercepted))
	}

	r.Cancel()
	for _, e := range r.World.Trace() {
		if e.Ctx != nil && e.Ctx.Err() == nil {
			return fmt.Errorf("%s.%s() is given a context that is not cancelled when the context of the test is", e.H, e.Method)
		}
	}
	return nil
}

// p31Scopes verifies what handlers are told by their scopes.
func p31Scopes(trace []*sim.Entry) error {
	routed := map[string]string{}
	for _, e := range trace {
		switch {
		case e.Kind == sim.Return && strings.HasPrefix(e.Method, "Route"):
			routed[e.H] = e.ID
		case e.Kind == sim.Call && e.Method == "HandleEvent" && e.Resource != "":
			if !e.Primary {
				return fmt.Errorf("%s.HandleEvent() is told that the delivery is not primary", e.H)
			}
		case e.Kind == sim.Call && routed[e.H] != "" && (e.Method == "HandleCommand" || e.Method == "HandleEvent"):
			if e.Inst != routed[e.H] {
				return fmt.Errorf("%s.%s() is told that the instance is %q, the message was routed to %q", e.H, e.Method, e.Inst, routed[e.H])
			}
		}
	}
	return nil
}

func p31Classify(w *sim.World, trace []*sim.Entry, st *prop.Stats, intercepted int) {
	types := map[string]bool{}
	for _, e := range trace {
		if e.Kind == sim.Call && e.Ctx != nil {
			for _, h := range w.App.Handlers {
				if h.Name == e.H {
					types[h.Type] = true
				}
			}
			st.Class(e.Method + "()")
		}
	}
	st.ClassIf(intercepted > 0, "intercepted")
	st.NonTrivial(len(types) >= 2 || len(types) == 1 && intercepted > 0)
}
