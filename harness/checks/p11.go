package checks

import (
	"errors"
	"fmt"
	"reflect"
	"slices"
	"strings"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/enginekit/message"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

func init() {
	prop.Register("P11", prop.Options{
		Rule: "A case is an application and a history of dispatches and ticks in which handlers panic or violate their contract at arbitrary points. " +
			"It is non-trivial if a handler call panics after it did something, or at least one later operation calls a handler.",
		Quick:    240000,
		Thorough: 1440000,
	}, func(t *rapid.T) *sim.Case {
		g := sim.Gen{
			Max:                map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 2, sim.Projection: 1},
			MaxMessages:        8,
			NumInstances:       2,
			Times:              []int64{0, 1000, 2000, 3000, 3600000, 7200000},
			ProjectionOutcomes: true,
			Ops: []string{
				sim.Destroy, sim.End, sim.Fail,
				sim.Panic, sim.BadType, sim.BadContent, sim.ApplyPanic, sim.LoadPanic,
				sim.RouteEmpty, sim.RoutePanic, sim.NilRoot,
			},
		}.Defaults()
		if rapid.Bool().Draw(t, "rare") {
			g.Ops = append([]string{
				sim.Destroy, sim.End, sim.RouteIgnore, sim.Log, sim.Log, sim.Log, sim.Log,
			}, sim.Pick(t, [][]string{
				{sim.Panic}, {sim.BadType}, {sim.BadContent}, {sim.ApplyPanic}, {sim.LoadPanic}, {sim.RouteEmpty}, {sim.RoutePanic}, {sim.NilRoot},
			})...)
		}

		c := &sim.Case{App: g.App(t)}
		c.Compact = sim.OneIn(t, 3)
		for _, h := range c.App.Handlers {
			for _, ops := range [][]sim.Op{h.Version, h.Close, h.Compact} {
				for i := range ops {
					if sim.OneIn(t, 4) {
						ops[i] = sim.Op{K: sim.Panic, S: sim.Pick(t, sim.PanicKinds[2:])}
					}
				}
			}
		}
		c.Ops = g.History(t, c.App, 2, 8, []string{"dispatch", "dispatch", "dispatch", "tick"}, 0)
		return c
	}, func(cp **sim.Case, st *prop.Stats) error {
		c := *cp
		w, results := run(c)
		trace := w.Trace()
		aborted := map[int]bool{}

		// Replay the raised panics.
		raised := w.Raised()
		for i := range c.Ops {
			var mine []*sim.Entry
			for _, e := range trace {
				if e.Op == i {
					mine = append(mine, e)
				}
			}
			if err := checkPanic(c, w, i, mine, results[i], &raised, st); err != nil {
				return fmt.Errorf("operation %d: %w\npanic: %v\n%s", i, err, results[i].Panic, traceText(trace, i))
			}
			aborted[i] = results[i].Panicked
		}

		// Nothing done by a handler call that panicked may have any effect.
		all := calls(c.App, trace)
		for _, x := range all {
			if x.end != nil && x.end.Kind == sim.Return {
				continue
			}
			st.NonTrivial(len(x.done) > 0)
			for _, y := range all {
				st.NonTrivial(y.Op > x.Op)
			}
			for _, m := range x.produced("CET") {
				for _, y := range all {
					if y.M != nil && y.M.K == m.K {
						return fmt.Errorf("operation %d: message #%d was delivered, even though the call to %s.%s that produced it panicked in operation %d", y.Op, m.K, x.H, x.Method, x.Op)
					}
				}
			}
		}
		if err := checkAggregates(c, trace, &prop.Stats{}); err != nil {
			return err
		}
		if err := checkProcesses(c, trace, aborted, &prop.Stats{}); err != nil {
			return err
		}

		// Operations without panics must still be complete.
		complete := &sim.Case{App: c.App, Compact: c.Compact}
		var kept []*sim.Entry
		for i, op := range c.Ops {
			if aborted[i] || usesProjections(c, trace, i) {
				continue
			}
			for _, e := range trace {
				if e.Op == i {
					x := *e
					x.Op = len(complete.Ops)
					kept = append(kept, &x)
				}
			}
			complete.Ops = append(complete.Ops, op)
		}
		return checkDelivery(complete, kept, &prop.Stats{})
	})
}

// usesProjections returns true if any projection is used during operation i.
func usesProjections(c *sim.Case, trace []*sim.Entry, i int) bool {
	for _, e := range trace {
		if e.Op == i && e.Kind == sim.Call && c.App.Handler(e.H).Type == sim.Projection {
			return true
		}
	}
	return false
}

// checkPanic verifies that operation i panicked if and only if it should have,
// with the expected value.
func checkPanic(
	c *sim.Case,
	w *sim.World,
	i int,
	trace []*sim.Entry,
	res sim.Result,
	raised *[]any,
	st *prop.Stats,
) error {
	// The calls to the projection's Compact() method occur in parallel to other
	// calls. In any other case the culprit is the last call of the operation.
	var culprits []*call
	cs := calls(c.App, trace)
	for _, x := range cs {
		if x.end == nil {
			return fmt.Errorf("%s.%s() is still in progress", x.H, x.Method)
		}
		if x.end.Kind == sim.Thrown {
			culprits = append(culprits, x)
		}
		for _, m := range x.produced("CET") {
			if m.Bad != "" {
				return fmt.Errorf("%s.%s() produced message #%d, which is invalid", x.H, x.Method, m.K)
			}
			if !slices.Contains(x.spec.Produces, m.T) && !slices.Contains(x.spec.Timeouts, m.T) {
				return fmt.Errorf("%s.%s() produced message #%d, which it is not configured to produce", x.H, x.Method, m.K)
			}
		}
	}

	text := ""
	if res.Panicked {
		text = fmt.Sprint(res.Panic)
	}

	mentions := func(parts ...string) error {
		if !res.Panicked {
			return fmt.Errorf("it did not panic")
		}
		for _, p := range parts {
			if !strings.Contains(text, p) {
				return fmt.Errorf("the panic does not mention %q", p)
			}
		}
		return nil
	}

	for _, e := range trace {
		if e.Kind != sim.Unread {
			continue
		}
		st.Class("panic while loading an instance")
		if len(culprits) > 0 {
			return fmt.Errorf("it continued after a panic")
		}
		for _, x := range cs {
			if x.Seq > e.Seq {
				return fmt.Errorf("%s.%s was called after a panic", x.H, x.Method)
			}
		}
		v := (*raised)[0]
		*raised = (*raised)[1:]
		if e.Do.S == "unexpected" {
			return mentions(e.H, sim.Aggregate, "AggregateRoot.ApplyEvent", typeText(e.M))
		}
		if !res.Panicked {
			return fmt.Errorf("it did not panic")
		}
		if !sameValue(v, res.Panic) {
			return fmt.Errorf("the panic value is not the one raised (%v)", v)
		}
		return nil
	}

	if len(culprits) == 0 {
		// The last call may have been a routing call that returned something
		// invalid, or was followed by New().
		for n := len(cs) - 1; n >= 0; n-- {
			x := cs[n]
			if x.Method != "RouteCommandToInstance" && x.Method != "RouteEventToInstance" {
				continue
			}
			if n != len(cs)-1 {
				if v := invalidRoute(x); v != "" && v != "nil" {
					return fmt.Errorf("%s.%s(#%d) returned an invalid result, but something else was called afterwards", x.H, x.Method, x.M.K)
				}
				continue
			}
			switch invalidRoute(x) {
			case "empty":
				st.Class("routed to empty ID")
				return mentions(x.H, x.spec.Type, typeName(x.spec)+"."+x.Method, typeText(x.M), "empty")
			case "nil":
				if !res.Panicked && x.spec.Type == sim.Process {
					return fmt.Errorf("%s.New() returned nil but the operation did not panic", x.H)
				}
				st.Class("nil root")
				return mentions(x.H, x.spec.Type, typeName(x.spec)+".New", "nil")
			}
		}

		if res.Panicked {
			return fmt.Errorf("it panicked without reason")
		}
		return nil
	}

	// The values that were raised by this operation's calls.
	var values []any
	for _, x := range culprits {
		if isRaise(x) {
			values = append(values, (*raised)[0])
			*raised = (*raised)[1:]
		}
	}

	if len(culprits) > 1 {
		// This is only possible if one is a compaction.
		compactions := 0
		for _, x := range culprits {
			if x.Method == "Compact" {
				compactions++
			}
		}
		if compactions != len(culprits)-1 {
			return fmt.Errorf("it continued after a panic")
		}
		if !res.Panicked {
			return fmt.Errorf("it did not panic")
		}
		for _, v := range values {
			if sameValue(v, res.Panic) {
				return nil
			}
		}
		if strings.Contains(text, culprits[0].H) {
			return nil
		}
		return fmt.Errorf("the panic value is not one of those raised (%v)", values)
	}

	x := culprits[0]
	op := x.end.Do
	method := typeName(x.spec) + "." + x.Method

	for _, y := range cs {
		parallel := y.Method == "Compact" || (x.Method == "Compact" && y.Method == "HandleEvent" && x.H == y.H)
		if y.Seq > x.end.Seq && !parallel {
			return fmt.Errorf("%s.%s was called after a panic", y.H, y.Method)
		}
	}

	switch {
	case isRaise(x):
		v := values[0]
		kind, subject := op.S, x.M
		if op.K == sim.Record {
			a, _ := op.M.Find(sim.ApplyScript, sim.Panic)
			kind, subject = a.S, op.M
			method = "AggregateRoot.ApplyEvent"
			st.Class("panic in ApplyEvent")
		}
		if kind == "unexpected" {
			st.Class("unexpected message")
			if res.Panic == any(dogma.UnexpectedMessage) {
				return fmt.Errorf("the panic was not enriched")
			}
			return mentions(x.H, x.spec.Type, method, typeText(subject))
		}
		st.Class("other panic")
		if !res.Panicked {
			return fmt.Errorf("it did not panic")
		}
		if !sameValue(v, res.Panic) {
			return fmt.Errorf("the panic value is not the one raised (%v)", v)
		}
		return nil

	case op.M != nil && op.M.Bad != "":
		st.Class("invalid " + op.K)
		return mentions(x.H, x.spec.Type, method, typeText(op.M), op.M.Bad)

	case op.M != nil:
		st.Class("unconfigured " + op.K)
		legal := append(append([]string(nil), x.spec.Produces...), x.spec.Timeouts...)
		for _, t := range legal {
			if t == op.M.T {
				return fmt.Errorf("%s can not %s a valid message #%d", x.H, op.K, op.M.K)
			}
		}
		return mentions(x.H, x.spec.Type, method, typeText(op.M))
	}

	return fmt.Errorf("%s.%s panicked for no reason", x.H, x.Method)
}

// isRaise returns true if x panicked because its script says so.
func isRaise(x *call) bool {
	op := x.end.Do
	if op.K == sim.Panic || op.K == sim.RoutePanic {
		return true
	}
	if op.K == sim.Record && op.M.Has(sim.ApplyScript, sim.Panic) {
		for _, t := range x.spec.Produces {
			if t == op.M.T && op.M.Bad == "" {
				return true
			}
		}
	}
	return false
}

// invalidRoute describes why the result of a routing method is invalid.
func invalidRoute(x *call) string {
	if x.end.Err != nil {
		return ""
	}
	if x.Method == "RouteEventToInstance" && !x.end.OK {
		return ""
	}
	if x.end.ID == "" {
		return "empty"
	}
	if x.M.Has(x.H, sim.NilRoot) {
		return "nil"
	}
	return ""
}

func sameValue(a, b any) bool {
	if e, ok := a.(error); ok {
		if f, ok := b.(error); ok {
			return e == f || errors.Is(f, e) && reflect.TypeOf(e) == reflect.TypeOf(f)
		}
		return false
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func typeName(h *sim.Handler) string {
	switch h.Type {
	case sim.Aggregate:
		return "sim.AggregateHandler"
	case sim.Process:
		return "sim.ProcessHandler"
	case sim.Integration:
		return "sim.IntegrationHandler"
	default:
		return "sim.ProjectionHandler"
	}
}

// typeText returns the human-readable name of the type of m.
func typeText(m *sim.Msg) string {
	return message.TypeOf(m.Message()).String()
}
