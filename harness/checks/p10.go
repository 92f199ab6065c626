package checks

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

type p10Case struct {
	sim.Case

	// BusyOp is the operation during which another operation is attempted,
	// using a context that is (or becomes) cancelled.
	BusyOp     int
	Busy       *sim.EngineOp `json:",omitempty"`
	CancelLate bool          `json:",omitempty"`
}

func init() {
	prop.Register("P10", prop.Options{
		Rule: "A case is an application and a history of dispatches and ticks in which handler calls fail or cancel the operation's context (plainly, with a cause, or with an error other than that of a cancellation), some with another operation waiting for the engine with a cancelled context. " +
			"It is non-trivial if an error or cancellation occurs in an operation that handles at least two messages.",
		Quick:    240000,
		Thorough: 1440000,
	}, func(t *rapid.T) *p10Case {
		g := sim.Gen{
			Max:                map[string]int{sim.Aggregate: 2, sim.Process: 3, sim.Integration: 2, sim.Projection: 2},
			MaxMessages:        16,
			NumInstances:       2,
			Times:              []int64{0, 1000, 2000, 3000, 3600000, 7200000},
			ProjectionOutcomes: true,
			ErrorKinds:         true,
			Ops:                []string{sim.End, sim.Fail, sim.Fail, sim.RouteFail, sim.RouteIgnore, sim.Conflict},
		}.Defaults()
		cancel := sim.OneIn(t, 3)
		if cancel {
			g.Ops = append(g.Ops, sim.Cancel)
		}

		c := &p10Case{}
		c.App = g.App(t)
		c.Compact = sim.OneIn(t, 3)
		for _, h := range c.App.Handlers {
			h.Version = nil
		}
		c.Ops = g.History(t, c.App, 1, 5, []string{"dispatch", "dispatch", "tick"}, 8)

		for _, op := range c.Ops {
			if cancel {
				op.Ctx = sim.Pick(t, sim.Contexts)
			}
		}

		if sim.OneIn(t, 6) {
			c.drawBusy(t, g)
		}
		return c
	}, func(cp **p10Case, st *prop.Stats) error {
		c := *cp
		w := sim.NewEngine(c.App, engine.EnableProjectionCompactionDuringHandling(c.Compact))

		var (
			results []sim.Result
			busyErr error
			used    atomic.Bool
		)

		for i, op := range c.Ops {
			w.Hook = nil
			if c.Busy != nil && i == c.BusyOp {
				w.Hook = func(e *sim.Entry) {
					if used.CompareAndSwap(false, true) {
						st.Class("waiting operation was cancelled")
						busyErr = attemptWhileBusy(w, c)
					}
				}
			}
			results = append(results, w.Run(i, op))
			if busyErr != nil {
				return busyErr
			}
		}
		if err := noPanics(results); err != nil {
			return err
		}

		return checkErrors(&c.Case, w.Trace(), results, st)
	})
}

// drawBusy draws an operation that is attempted while the engine is busy.
func (c *p10Case) drawBusy(t *rapid.T, g *sim.Gen) {
	c.BusyOp = sim.Int(t, 0, len(c.Ops)-1)
	c.CancelLate = rapid.Bool().Draw(t, "late")
	c.Busy = &sim.EngineOp{K: sim.Pick(t, []string{"dispatch", "tick"}), Now: 9000000, Ctx: sim.Pick(t, sim.Contexts)}
	if c.Busy.K == "dispatch" {
		c.Busy.M = g.Tree(t, c.App, c.App.Consumed())
		next := 100000
		sim.AssignKeys(&next, c.Busy.M)
	}
}

// attemptWhileBusy performs c.Busy with a context that is cancelled, while the
// engine is busy with another operation.
func attemptWhileBusy(w *sim.World, c *p10Case, opts ...engine.OperationOption) error {
	ctx, cancel := sim.NewContext(c.Busy.Ctx)
	if c.CancelLate {
		go func() {
			time.Sleep(200 * time.Microsecond)
			cancel()
		}()
	} else {
		cancel()
	}

	n := w.Len()
	opts = append(opts, engine.WithCurrentTime(sim.At(c.Busy.Now)))
	done := make(chan sim.Result, 1)
	go func() {
		done <- sim.Capture(func() error {
			if c.Busy.K == "tick" {
				return w.Engine.Tick(ctx, opts...)
			}
			return w.Engine.Dispatch(ctx, c.Busy.M.Message(), opts...)
		})
	}()

	select {
	case res := <-done:
		if res.Panicked {
			return fmt.Errorf("the waiting operation panicked: %v", res.Panic)
		}
		if !errors.Is(res.Err, ctx.Err()) {
			return fmt.Errorf("the waiting operation returned %v, expected the error of its context", res.Err)
		}
	case <-time.After(30 * time.Second):
		return fmt.Errorf("the waiting operation did not return, even though its context is cancelled")
	}

	// A compaction may be running in parallel with the busy operation.
	for _, e := range w.Trace()[n:] {
		if e.Kind == sim.Call && e.Method != "Compact" {
			return fmt.Errorf("the waiting operation called %s.%s", e.H, e.Method)
		}
	}
	return nil
}

// checkErrors verifies that errors are reported but have no other effect.
func checkErrors(c *sim.Case, trace []*sim.Entry, results []sim.Result, st *prop.Stats) error {
	var (
		all       = calls(c.App, trace)
		completed = &sim.Case{App: c.App, Compact: c.Compact}
		kept      []*sim.Entry
		hidden    = hiddenErrors(trace)
	)

	for i, op := range c.Ops {
		bad := func(f string, args ...any) error {
			return fmt.Errorf("operation %d (%s): %s\nerror: %v\n%s", i, op.K, fmt.Sprintf(f, args...), results[i].Err, traceText(trace, i))
		}

		var (
			cs        = callsOf(all, i)
			err       = results[i].Err
			cancelled *call
			messages  = map[int]bool{}
		)

		for _, x := range cs {
			if x.M != nil {
				messages[x.M.K] = true
			}
			if cancelled != nil && x.M != nil && x.M.K != cancelled.M.K && x.spec.Name != "" {
				if x.Seq > cancelled.Seq {
					return bad("message #%d was begun after the context was cancelled while handling message #%d", x.M.K, cancelled.M.K)
				}
			}
			if cancelled == nil && x.M != nil && x.isHandle() && cancelsContext(x) {
				cancelled = x
			}
		}

		if cancelled != nil {
			st.Class("context cancelled")
			st.ClassIf(op.Ctx != sim.CtxPlain, "context of kind "+op.Ctx)
			st.NonTrivial(len(messages) >= 2)
			if !errors.Is(err, results[i].CtxErr) {
				return bad("the context's error was not returned")
			}
			// What follows depends on how much was done already.
			continue
		}

		// Determine which errors are to be reported.
		expected := map[*sim.Error]int{}
		perHandler := map[*sim.Handler]int{}
		for _, x := range cs {
			if x.end == nil {
				return bad("%s.%s() is still in progress", x.H, x.Method)
			}
			if x.end.Err == nil {
				continue
			}
			if hidden[x.end] {
				st.Class("compaction error superseded")
				continue
			}
			e := x.end.Err.(*sim.Error)
			expected[e]++
			perHandler[x.spec]++
			st.ClassIf(expected[e] > 1, "same error returned several times")
			st.ClassIf(errors.Is(e, context.Canceled), "handler returned context.Canceled")
		}

		if (err != nil) != (len(expected) > 0) {
			return bad("%d handler call(s) failed", len(expected))
		}

		reported := map[*sim.Error]int{}
		for _, e := range scriptedErrors(err) {
			reported[e]++
			if expected[e] == 0 {
				return bad("%q is reported but did not occur", e)
			}
		}
		for e, n := range expected {
			if !errors.Is(err, e) || reported[e] != n {
				return bad("%q is contained in the error %d time(s), expected %d", e, reported[e], n)
			}
			// Distinct errors may have the same text.
			want := 0
			for x, n := range expected {
				if x.Text == e.Text {
					want += n
				}
			}
			if x := strings.Count(err.Error(), e.Text); x != want {
				return bad("%q is mentioned %d time(s), expected %d", e, x, want)
			}
		}
		for h, n := range perHandler {
			if strings.Count(err.Error(), h.Name) < n {
				return bad("handler %s is not named for each of its %d errors", h.Name, n)
			}
			if strings.Count(err.Error(), h.Type) < n {
				return bad("the type of handler %s is not mentioned for each of its %d errors", h.Name, n)
			}
		}

		st.NonTrivial(len(expected) > 0 && len(messages) >= 2)
		st.ClassIf(len(expected) >= 2, "2+ errors in one operation")
		st.ClassIf(len(expected) > 0 && op.K == "tick", "error during tick")

		// Keep this operation for verification of its deliveries.
		for _, e := range trace {
			if e.Op == i {
				x := *e
				x.Op = len(completed.Ops)
				kept = append(kept, &x)
			}
		}
		completed.Ops = append(completed.Ops, op)
	}

	if err := checkDelivery(completed, kept, &prop.Stats{}); err != nil {
		return err
	}

	if len(completed.Ops) == len(c.Ops) {
		if err := checkAggregates(c, trace, &prop.Stats{}); err != nil {
			return err
		}
		if err := checkTimeouts(c, trace, &prop.Stats{}); err != nil {
			return err
		}
		return checkProcesses(c, trace, nil, &prop.Stats{})
	}

	return nil
}

// cancelsContext returns true if x cancelled the operation's context.
func cancelsContext(x *call) bool {
	for _, op := range x.M.Do[x.H] {
		if op.K == sim.Cancel {
			return true
		}
		if op.K == sim.Fail {
			return false
		}
	}
	return false
}

// hiddenErrors returns the ends of failed compactions that accompany events the
// handling of which caused another, more relevant error.
func hiddenErrors(trace []*sim.Entry) map[*sim.Entry]bool {
	var (
		hidden  = map[*sim.Entry]bool{}
		compact = map[string]*sim.Entry{}
		other   = map[string]bool{}
	)

	for _, e := range trace {
		if e.Kind == sim.Call && e.Method == "ResourceVersion" {
			delete(compact, e.H)
			delete(other, e.H)
		}
		if e.Kind == sim.Return && e.Err != nil {
			switch e.Method {
			case "Compact":
				compact[e.H] = e
			case "HandleEvent", "CloseResource":
				other[e.H] = true
			}
		}
		if e.Kind == sim.Fact {
			if f, ok := e.Fact.(fact.HandlingCompleted); ok {
				h := f.Handler.Identity().Name
				if e := compact[h]; e != nil && other[h] {
					hidden[e] = true
				}
				delete(compact, h)
				delete(other, h)
			}
		}
	}

	return hidden
}
