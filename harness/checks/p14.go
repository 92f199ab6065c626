package checks

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

type p14Case struct {
	App     *sim.App
	Compact bool `json:",omitempty"`

	// Differential is true if the application is deterministic, such that the
	// behavior after the reset can be compared with that of another engine.
	Differential bool `json:",omitempty"`

	Prefix []*sim.EngineOp
	Resets int
	Suffix []*sim.EngineOp
	Hooks  int
}

func init() {
	prop.Register("P14", prop.Options{
		Rule: "A case is an application, a history that precedes one to three resets and a history that follows them. " +
			"It is non-trivial if some instance that is used after the reset was live before it, or a timeout or compaction was pending.",
		Quick:    120000,
		Thorough: 800000,
	}, func(t *rapid.T) *p14Case {
		c := &p14Case{Differential: !sim.OneIn(t, 3)}
		g := sim.Gen{
			Max:                map[string]int{sim.Aggregate: 2, sim.Process: 3, sim.Integration: 2, sim.Projection: 2},
			MaxMessages:        10,
			Disabled:           true,
			NumInstances:       2,
			Times:              []int64{0, 1000, 2000, 3000, 4000, 3600000, 3601000},
			Schedule:           2,
			ProjectionOutcomes: c.Differential,
			Ops:                []string{sim.Destroy, sim.End, sim.Log},
		}.Defaults()
		if sim.OneIn(t, 6) {
			// Only close to the zero time is it visible whether a projection
			// has never been compacted, or was compacted at that time.
			for i := range g.Times {
				g.Times[i] += zeroTime
			}
		}
		if c.Differential {
			g.SingleConsumer = true
			g.Max[sim.Process] = 1
			g.Max[sim.Aggregate] = 3
		}
		c.App = g.App(t)
		c.Compact = c.Differential && sim.OneIn(t, 4)

		ops := g.Ops
		g.Ops = append(slices.Clone(ops), sim.Fail, sim.Panic, sim.RoutePanic, sim.BadType, sim.NilRoot)
		kinds := []string{"dispatch", "dispatch", "dispatch", "tick", "reset"}
		c.Prefix = g.History(t, c.App, 0, 5, kinds, 6)
		c.Resets = sim.Int(t, 1, 3)
		c.Hooks = sim.Count(t, 0, 3, 12)

		if c.Differential {
			if sim.OneIn(t, 2) {
				g.Ops = append(slices.Clone(ops), sim.Fail)
			}
		} else {
			g.Ops = append(slices.Clone(ops), sim.Fail)
		}
		c.Suffix = g.History(t, c.App, 1, 5, []string{"dispatch", "dispatch", "tick", "tick"}, 6)

		// Ensure that the messages in the suffix are distinct from those in the
		// prefix.
		next := 100000
		for _, op := range c.Suffix {
			if op.M != nil {
				sim.AssignKeys(&next, op.M)
			}
		}
		return c
	}, func(cp **p14Case, st *prop.Stats) error {
		c := *cp

		var (
			hooks []int
			opts  []engine.Option
		)
		for i := range c.Hooks {
			opts = append(opts, engine.WithResetter(func() { hooks = append(hooks, i) }))
		}
		opts = append(opts, engine.EnableProjectionCompactionDuringHandling(c.Compact))
		w := sim.NewEngine(c.App, opts...)

		reset := func(n int) error {
			hooks = nil
			res := w.Run(n, &sim.EngineOp{K: "reset"})
			if res.Panicked {
				return fmt.Errorf("reset panicked: %v", res.Panic)
			}
			if len(hooks) != c.Hooks {
				return fmt.Errorf("reset invoked hooks %v, expected each of %d", hooks, c.Hooks)
			}
			for i, h := range hooks {
				if i != h {
					return fmt.Errorf("reset invoked hooks in order %v", hooks)
				}
			}
			hooks = nil
			return nil
		}

		for i, op := range c.Prefix {
			if op.K == "reset" {
				if err := reset(i); err != nil {
					return err
				}
				continue
			}
			w.Run(i, op)
			if len(hooks) != 0 {
				return fmt.Errorf("reset hooks %v were invoked by a %s operation", hooks, op.K)
			}
		}
		prefix := w.Trace()

		for range c.Resets {
			if err := reset(len(c.Prefix)); err != nil {
				return err
			}
		}
		w.ResetCounters()

		start := w.Len()
		var results []sim.Result
		for i, op := range c.Suffix {
			results = append(results, w.Run(i, op))
			if len(hooks) != 0 {
				return fmt.Errorf("reset hooks %v were invoked by a %s operation", hooks, op.K)
			}
		}
		suffix := w.Trace()[start:]

		p14Classify(c, prefix, suffix, st)

		if c.Differential {
			fresh := sim.NewEngine(c.App, engine.EnableProjectionCompactionDuringHandling(c.Compact))
			for i, op := range c.Suffix {
				res := fresh.Run(i, op)
				if got, want := results[i], res; got.Panicked != want.Panicked ||
					describePanic(got.Panic) != describePanic(want.Panic) ||
					describeError(got.Err) != describeError(want.Err) {
					return fmt.Errorf("operation %d after the reset has result %+v, on a new engine it has %+v", i, got, want)
				}
			}
			got, want := normalize(suffix, nil), normalize(fresh.Trace(), nil)
			for i := range max(len(got), len(want)) {
				var g, w string
				if i < len(got) {
					g = got[i]
				}
				if i < len(want) {
					w = want[i]
				}
				if g != w {
					return fmt.Errorf("after the reset: %s\non a new engine: %s\nafter the reset:\n%s", g, w, strings.Join(got, "\n"))
				}
			}
			return nil
		}

		// Otherwise, compare what happened with the models of a new engine.
		m := &sim.Case{App: c.App, Ops: c.Suffix}
		if err := noPanics(results); err != nil {
			return err
		}
		s := &prop.Stats{}
		for _, err := range []error{
			checkDelivery(m, suffix, s),
			checkEnvelopes(m, suffix, s),
			checkAggregates(m, suffix, s),
			checkProcesses(m, suffix, nil, s),
			checkTimeouts(m, suffix, s),
			checkCompaction(m, suffix, results, s),
		} {
			if err != nil {
				return fmt.Errorf("after the reset, considering no earlier operations: %w", err)
			}
		}
		return nil
	})
}

func describePanic(v any) string {
	switch v := v.(type) {
	case nil:
		return ""
	case *sim.PanicValue:
		return v.Text
	case *sim.Error:
		return v.Text
	case string:
		if strings.HasPrefix(v, "string panic") {
			return "string panic"
		}
		return v
	case sim.PanicSlice:
		return "slice panic"
	default:
		return fmt.Sprint(v)
	}
}

// describeError describes an error, irrespective of the order in which
// several handlers failed.
func describeError(err error) string {
	var res []string
	for _, e := range errorList(err) {
		res = append(res, e.Error())
	}
	sort.Strings(res)
	return strings.Join(res, "; ")
}

// p14Classify determines whether the reset was of any importance.
func p14Classify(c *p14Case, prefix, suffix []*sim.Entry, st *prop.Stats) {
	used := map[instance]bool{}
	pending := false
	for _, x := range calls(c.App, prefix) {
		if x.isHandle() && !x.failed() {
			used[instance{x.H, x.Inst}] = true
		}
		for _, m := range x.produced("T") {
			pending = pending || m != nil
		}
		if x.Method == "Compact" {
			used[instance{x.H, "compact"}] = true
		}
	}
	again := false
	for _, x := range calls(c.App, suffix) {
		if x.isHandle() && x.Inst != "" && used[instance{x.H, x.Inst}] {
			again = true
			st.Class("instance used before and after")
		}
		if x.Method == "Compact" && used[instance{x.H, "compact"}] {
			again = true
			st.Class("projection compacted before and after")
		}
	}
	tick := false
	for _, op := range c.Suffix {
		tick = tick || op.K == "tick"
	}
	st.ClassIf(pending && tick, "timeouts scheduled before, tick after")
	st.ClassIf(c.Differential, "compared with a new engine")
	st.NonTrivial(again || pending && tick)
}

// normalize returns descriptions of everything in a trace that must be the same
// for two engines in the same state. If ids is non-nil, it replaces message IDs.
func normalize(trace []*sim.Entry, ids func(string) string) []string {
	var (
		res      []string
		compacts = map[string][]string{}
		ticks    = map[string][]string{}
		ticking  string
		op       = -1
	)

	// The order in which handlers take part in a tick is arbitrary. Compaction
	// may occur in parallel with other things.
	flush := func() {
		for _, m := range []map[string][]string{ticks, compacts} {
			var names []string
			for n := range m {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				res = append(res, m[n]...)
			}
			clear(m)
		}
	}

	for _, e := range trace {
		if e.Op != op {
			flush()
			op = e.Op
		}

		text := fmt.Sprintf("operation %d: %s", op, describeEntry(e, ids))
		handler := ""
		compact := e.Method == "Compact"

		if e.Kind == sim.Fact {
			v := reflect.ValueOf(e.Fact)
			if f := v.FieldByName("Handler"); f.IsValid() {
				handler = f.Interface().(configkit.Handler).Identity().Name
			}
			switch f := e.Fact.(type) {
			case fact.TickBegun, fact.TickSkipped:
				ticking = handler
			case fact.ProjectionCompactionBegun, fact.ProjectionCompactionCompleted:
				compact = true
			case fact.MessageLoggedByProjection:
				compact = f.Envelope == nil
			case fact.DispatchBegun:
				flush()
				ticking = ""
			}
		} else {
			handler = e.H
		}

		switch {
		case ticking != "":
			ticks[ticking] = append(ticks[ticking], text)
		case compact:
			compacts[handler] = append(compacts[handler], text)
		default:
			res = append(res, text)
		}

		switch e.Fact.(type) {
		case fact.TickCompleted, fact.TickSkipped:
			ticking = ""
		case fact.HandlingCompleted:
			flush()
		}
	}
	flush()
	return res
}

// describeEntry describes the parts of a trace entry that do not depend on the
// identity of values. If ids is non-nil, it replaces message IDs.
func describeEntry(e *sim.Entry, ids func(string) string) string {
	if ids == nil {
		ids = func(id string) string { return id }
	}
	if e.Kind != sim.Fact {
		k := 0
		if e.M != nil {
			k = e.M.K
		}
		do := e.Do.K
		if e.Do.M != nil {
			do += fmt.Sprintf(" #%d", e.Do.M.K)
		}
		return fmt.Sprintf(
			"%s %s.%s(#%d) inst=%q root=%v do=%s time=%s err=%v ok=%v id=%q resource=%q current=%q next=%q",
			e.Kind, e.H, e.Method, k, e.Inst, e.Root, do, e.Time, e.Err, e.OK, e.ID, ids(e.Resource), e.Current, e.Next,
		)
	}

	v := reflect.ValueOf(e.Fact)
	var parts []string
	for i := range v.NumField() {
		name := v.Type().Field(i).Name
		switch x := v.Field(i).Interface().(type) {
		case *envelope.Envelope:
			if x == nil {
				parts = append(parts, name+"=nil")
				break
			}
			o := "-"
			if x.Origin != nil {
				o = fmt.Sprintf("%s/%s/%s", x.Origin.Handler.Identity().Name, x.Origin.HandlerType, x.Origin.InstanceID)
			}
			parts = append(parts, fmt.Sprintf(
				"%s=%s/%s/%s/#%d/%s/%s/%s", name,
				ids(x.MessageID), ids(x.CausationID), ids(x.CorrelationID), asContent(x.Message).K, x.CreatedAt, x.ScheduledFor, o,
			))
		case configkit.Handler:
			parts = append(parts, name+"="+x.Identity().Name)
		case nil:
			parts = append(parts, name+"=nil")
		case error:
			parts = append(parts, name+"="+describeError(x))
		case string, bool, time.Time, map[string]bool, map[configkit.HandlerType]bool, fact.HandlerSkipReason:
			parts = append(parts, fmt.Sprintf("%s=%v", name, x))
		case []any:
			// The first argument of messages logged by compactions identifies
			// the call.
			if f, ok := e.Fact.(fact.MessageLoggedByProjection); ok && f.Envelope == nil {
				x = x[1:]
			}
			parts = append(parts, fmt.Sprintf("%s=%v", name, x))
		case *sim.AggregateRoot, *sim.ProcessRoot, sim.ProcessMap:
			// The content of roots is part of other entries.
		default:
			parts = append(parts, fmt.Sprintf("%s=%T", name, x))
		}
	}
	return fmt.Sprintf("%T %s", e.Fact, strings.Join(parts, " "))
}
