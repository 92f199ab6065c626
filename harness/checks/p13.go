package checks

import (
	"errors"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"strings"
	"sync/atomic"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

func init() {
	prop.Register("P13", prop.Options{
		Rule: "A case is an application and a history of dispatches, ticks and resets with options, failing handlers, log messages and up to 3 additional observers. " +
			"It is non-trivial if some operation announces at least 4 facts between the beginnings and completions of handlers.",
		Quick:    200000,
		Thorough: 1200000,
	}, func(t *rapid.T) *p10Case {
		g := sim.Gen{
			Max:                map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 2, sim.Projection: 2},
			Large:              60,
			MaxMessages:        12,
			MaxOps:             5,
			Disabled:           true,
			NumInstances:       2,
			Times:              []int64{0, 1000, 2000, 3000, 3600000, 7200000},
			ProjectionOutcomes: true,
			Ops:                []string{sim.Destroy, sim.Destroy, sim.End, sim.End, sim.Fail, sim.RouteFail, sim.RouteIgnore, sim.Conflict, sim.Log, sim.Log},
		}.Defaults()
		if sim.OneIn(t, 6) {
			g.Ops = append(g.Ops, sim.Cancel)
		}
		c := &p10Case{Case: sim.Case{App: g.App(t)}}
		c.Compact = sim.OneIn(t, 3)
		c.Ops = g.History(t, c.App, 1, 6, []string{"dispatch", "dispatch", "dispatch", "tick", "tick", "reset"}, 2)
		for _, op := range c.Ops {
			op.Obs = sim.Count(t, 0, 3, 12)
		}
		if sim.OneIn(t, 16) {
			c.drawBusy(t, g)
		}
		return c
	}, func(cp **p10Case, st *prop.Stats) error {
		c := *cp
		w := sim.NewEngine(c.App, engine.EnableProjectionCompactionDuringHandling(c.Compact))
		p := &factParser{
			c:          &c.Case,
			aggregates: map[string]bool{},
			processes:  map[string]bool{},
			st:         st,
		}

		for i, op := range c.Ops {
			var (
				extra []engine.OperationOption
				obs   []*fact.Buffer
			)
			for range op.Obs {
				b := &fact.Buffer{}
				obs = append(obs, b)
				extra = append(extra, engine.WithObserver(b))
			}

			var (
				used    atomic.Bool
				busyErr error
			)
			w.Hook = nil
			if c.Busy != nil && i == c.BusyOp {
				w.Hook = func(*sim.Entry) {
					if used.CompareAndSwap(false, true) {
						st.Class("waiting operation was cancelled")
						busyErr = p13Busy(w, c)
					}
				}
			}

			res := w.Run(i, op, extra...)
			if busyErr != nil {
				return fmt.Errorf("operation %d: %w", i, busyErr)
			}
			if res.Panicked {
				return fmt.Errorf("operation %d panicked: %v", i, res.Panic)
			}

			trace := w.TraceOf(i)
			if err := p.operation(op, trace, res); err != nil {
				return fmt.Errorf("operation %d (%s): %w\n%s", i, op.K, err, traceText(trace, i))
			}

			var facts []fact.Fact
			for _, e := range trace {
				if e.Kind == sim.Fact {
					facts = append(facts, e.Fact)
				}
			}
			for n, b := range obs {
				st.Class("additional observer")
				got := b.Facts()
				if len(got) != len(facts) {
					return fmt.Errorf("operation %d: observer %d was notified of %d facts, but the first observer was notified of %d", i, n+1, len(got), len(facts))
				}
				for j := range facts {
					if !reflect.DeepEqual(facts[j], got[j]) {
						return fmt.Errorf("operation %d: observer %d was notified of %T, but the first observer was notified of %T", i, n+1, got[j], facts[j])
					}
				}
			}
		}
		return nil
	})
}

// p13Busy verifies the facts about an operation that is cancelled while the
// engine is busy with another one.
func p13Busy(w *sim.World, c *p10Case) error {
	b := &fact.Buffer{}
	if err := attemptWhileBusy(w, c, engine.WithObserver(b)); err != nil {
		return err
	}
	facts := b.Facts()
	if len(facts) == 0 {
		// It has not even begun.
		return nil
	}

	var err error
	ok := false
	if len(facts) == 2 {
		switch x := facts[0].(type) {
		case fact.DispatchCycleBegun:
			y, is := facts[1].(fact.DispatchCycleCompleted)
			ok = is && c.Busy.K == "dispatch" && x.Envelope == y.Envelope && sim.Of(x.Envelope.Message) == c.Busy.M
			err = y.Error
		case fact.TickCycleBegun:
			y, is := facts[1].(fact.TickCycleCompleted)
			ok = is && c.Busy.K == "tick"
			err = y.Error
		}
	}
	if !ok {
		return fmt.Errorf("the waiting operation is announced by %d facts that do not match, the first being %T", len(facts), facts[0])
	}
	if err == nil {
		return fmt.Errorf("the waiting operation is announced to have succeeded")
	}
	return nil
}

// factParser verifies the facts announced by an engine.
type factParser struct {
	c          *sim.Case
	aggregates map[string]bool // live aggregate instances
	processes  map[string]bool // live process instances
	st         *prop.Stats

	op    *sim.EngineOp
	trace []*sim.Entry
	calls map[int]*call
}

// operation verifies the facts announced by an operation.
func (p *factParser) operation(op *sim.EngineOp, trace []*sim.Entry, res sim.Result) error {
	p.op = op
	p.trace = trace
	p.calls = map[int]*call{}
	for _, x := range calls(p.c.App, trace) {
		p.calls[x.Call] = x
	}

	var root *envelope.Envelope

	switch op.K {
	case "reset":
		p.aggregates = map[string]bool{}
		p.processes = map[string]bool{}
		for _, e := range trace {
			if e.Kind != sim.Reset {
				return fmt.Errorf("a reset caused %s", e)
			}
		}
		return nil

	case "tick":
		f, ok := p.nextFact().(fact.TickCycleBegun)
		if !ok {
			return fmt.Errorf("the first fact is not the beginning of the tick")
		}
		if !f.EngineTime.Equal(sim.At(op.Now)) {
			return fmt.Errorf("the tick began at %s, expected %s", f.EngineTime, sim.At(op.Now))
		}
		if err := p.settings(f.EnabledHandlerTypes, f.EnabledHandlers); err != nil {
			return err
		}

	default:
		f, ok := p.nextFact().(fact.DispatchCycleBegun)
		if !ok {
			return fmt.Errorf("the first fact is not the beginning of the dispatch")
		}
		if !f.EngineTime.Equal(sim.At(op.Now)) {
			return fmt.Errorf("the dispatch began at %s, expected %s", f.EngineTime, sim.At(op.Now))
		}
		if asContent(f.Envelope.Message) == nil || asContent(f.Envelope.Message).K != op.M.K {
			return fmt.Errorf("the dispatch began with %v", f.Envelope.Message)
		}
		if err := p.settings(f.EnabledHandlerTypes, f.EnabledHandlers); err != nil {
			return err
		}
		root = f.Envelope
	}

	ticked := map[string]bool{}
	first := true

	for {
		switch f := p.nextFact().(type) {
		case fact.DispatchBegun:
			if first && root != nil && f.Envelope.MessageID != root.MessageID {
				return fmt.Errorf("the dispatched message is not the first to be handled")
			}
			first = false
			if err := p.message(f.Envelope); err != nil {
				return fmt.Errorf("message #%d: %w", asContent(f.Envelope.Message).K, err)
			}

		case fact.TickSkipped:
			if err := p.tickOnce(ticked, f.Handler, false); err != nil {
				return err
			}

		case fact.TickBegun:
			if err := p.tickOnce(ticked, f.Handler, true); err != nil {
				return err
			}
			if err := p.tick(p.spec(f.Handler)); err != nil {
				return fmt.Errorf("tick of %s: %w", f.Handler.Identity().Name, err)
			}

		case fact.DispatchCycleCompleted:
			if op.K != "dispatch" {
				return fmt.Errorf("unexpected end of dispatch")
			}
			if f.Envelope.MessageID != root.MessageID {
				return fmt.Errorf("the completed dispatch is for a different message")
			}
			if err := p.settings(f.EnabledHandlerTypes, f.EnabledHandlers); err != nil {
				return fmt.Errorf("on completion, %w", err)
			}
			return p.end(f.Error, res)

		case fact.TickCycleCompleted:
			if op.K != "tick" {
				return fmt.Errorf("unexpected end of tick")
			}
			if err := p.settings(f.EnabledHandlerTypes, f.EnabledHandlers); err != nil {
				return fmt.Errorf("on completion, %w", err)
			}
			return p.end(f.Error, res)

		case nil:
			return fmt.Errorf("the operation is not completed, or a handler was called outside of its handling or tick")

		default:
			return fmt.Errorf("unexpected %T outside of any handler", f)
		}
	}
}

// nextFact removes the next entry from the trace and returns it. It returns nil
// if it is not a fact.
func (p *factParser) nextFact() fact.Fact {
	if len(p.trace) == 0 || p.trace[0].Kind != sim.Fact {
		return nil
	}
	f := p.trace[0].Fact
	p.trace = p.trace[1:]
	return f
}

// until removes all entries up to the first fact of type T from the trace.
func until[T fact.Fact](p *factParser) (region []*sim.Entry, f T, ok bool) {
	for i, e := range p.trace {
		if e.Kind == sim.Fact {
			if f, ok := e.Fact.(T); ok {
				region = p.trace[:i]
				p.trace = p.trace[i+1:]
				return region, f, true
			}
		}
	}
	return nil, f, false
}

func (p *factParser) spec(h configkit.RichHandler) *sim.Handler {
	return p.c.App.Handler(h.Identity().Name)
}

// settings verifies the handler settings carried by a fact.
func (p *factParser) settings(types map[configkit.HandlerType]bool, handlers map[string]bool) error {
	wantTypes := map[configkit.HandlerType]bool{
		configkit.AggregateHandlerType:   true,
		configkit.ProcessHandlerType:     true,
		configkit.IntegrationHandlerType: true,
		configkit.ProjectionHandlerType:  true,
	}
	wantHandlers := map[string]bool{}
	for _, o := range p.op.Opts {
		if o.Type != "" {
			wantTypes[configkit.HandlerType(o.Type)] = o.On
		} else {
			wantHandlers[o.Name] = o.On
		}
	}
	if !maps.Equal(types, wantTypes) {
		return fmt.Errorf("the enabled handler types are %v, expected %v", types, wantTypes)
	}
	if !maps.Equal(handlers, wantHandlers) {
		return fmt.Errorf("the enabled handlers are %v, expected %v", handlers, wantHandlers)
	}
	return nil
}

// end verifies that the operation is over.
func (p *factParser) end(err error, res sim.Result) error {
	if len(p.trace) != 0 {
		return fmt.Errorf("something happened after the operation was completed: %s", p.trace[0])
	}
	if (err == nil) != (res.Err == nil) {
		return fmt.Errorf("the operation was completed with the error %v but returned %v", err, res.Err)
	}
	if err != nil && err.Error() != res.Err.Error() {
		return fmt.Errorf("the operation was completed with the error %q but returned %q", err, res.Err)
	}
	return nil
}

func (p *factParser) tickOnce(ticked map[string]bool, h configkit.RichHandler, enabled bool) error {
	spec := p.spec(h)
	if p.op.K != "tick" || spec == nil {
		return fmt.Errorf("unexpected tick of %s", h.Identity())
	}
	if ticked[spec.Name] {
		return fmt.Errorf("several ticks of %s", spec.Name)
	}
	ticked[spec.Name] = true
	if en, _ := sim.Enabled(spec, p.op.Opts); en != enabled {
		return fmt.Errorf("tick of %s: handler enabled is %v", spec.Name, en)
	}
	return nil
}

// tick verifies the facts announced by the tick of one handler.
func (p *factParser) tick(h *sim.Handler) error {
	region, f, ok := until[fact.TickCompleted](p)
	if !ok {
		return fmt.Errorf("is not completed")
	}
	if f.Handler.Identity().Name != h.Name {
		return fmt.Errorf("handler %s is completed instead", f.Handler.Identity().Name)
	}

	rest, expected, err := p.compactions(h, region)
	if err != nil {
		return err
	}
	for _, e := range rest {
		return fmt.Errorf("unexpected: %s", e)
	}
	return sameError(f.Error, expected)
}

// sameError verifies that an error is the one returned by a handler.
func sameError(got, want error) error {
	if want == nil && got != nil {
		return fmt.Errorf("completed with error %q, but none occurred", got)
	}
	if want != nil && !errors.Is(got, want) {
		return fmt.Errorf("completed with error %v, expected %q", got, want)
	}
	return nil
}

// compactions verifies the facts about compaction. It returns the remaining
// entries.
func (p *factParser) compactions(h *sim.Handler, region []*sim.Entry) ([]*sim.Entry, error, error) {
	var (
		rest   []*sim.Entry
		result error
		state  string
		x      *call
		logs   int
	)
	for _, e := range region {
		switch {
		case e.Kind != sim.Fact:
			if e.Method != "Compact" {
				rest = append(rest, e)
				continue
			}
			if e.H != h.Name {
				return nil, nil, fmt.Errorf("unexpected compaction of %s", e.H)
			}
			switch e.Kind {
			case sim.Call:
				if state != "begun" || x != nil {
					return nil, nil, fmt.Errorf("compaction of %s is not announced", e.H)
				}
				x = p.calls[e.Call]
			case sim.Done:
				if logs == 0 {
					return nil, nil, fmt.Errorf("log message of compaction is not announced")
				}
			case sim.Return:
				result = e.Err
			}

		default:
			switch f := e.Fact.(type) {
			case fact.ProjectionCompactionBegun:
				if state != "" || f.Handler.Identity().Name != h.Name {
					return nil, nil, fmt.Errorf("unexpected beginning of compaction of %s", f.Handler.Identity().Name)
				}
				state = "begun"
			case fact.ProjectionCompactionCompleted:
				if state != "begun" || x == nil || f.Handler.Identity().Name != h.Name {
					return nil, nil, fmt.Errorf("unexpected completion of compaction of %s", f.Handler.Identity().Name)
				}
				state = "completed"
				if err := sameError(f.Error, x.end.Err); err != nil {
					return nil, nil, fmt.Errorf("compaction: %w", err)
				}
				if logs != len(x.done) {
					return nil, nil, fmt.Errorf("compaction: %d of %d log messages were announced", logs, len(x.done))
				}
				p.st.Class("compaction")
			case fact.MessageLoggedByProjection:
				if f.Envelope != nil {
					rest = append(rest, e)
					continue
				}
				if state != "begun" || x == nil || f.Handler.Identity().Name != h.Name {
					return nil, nil, fmt.Errorf("unexpected log message of compaction: %s", f.LogFormat)
				}
				if logs >= len(x.done) {
					return nil, nil, fmt.Errorf("too many log messages of compaction")
				}
				d := x.done[logs].Do
				logs++
				if f.LogFormat != d.S || !reflect.DeepEqual(f.LogArguments, []any{x.Call, d.N}) {
					return nil, nil, fmt.Errorf("log message of compaction is %q %v, expected %q %v", f.LogFormat, f.LogArguments, d.S, []any{x.Call, d.N})
				}
			default:
				rest = append(rest, e)
			}
		}
	}
	if state == "begun" {
		return nil, nil, fmt.Errorf("compaction is not completed")
	}
	return rest, result, nil
}

// message verifies the facts announced while handling one message.
func (p *factParser) message(env *envelope.Envelope) error {
	var (
		m         = asContent(env.Message)
		remaining = map[string]bool{}
		expected  = map[*sim.Error]bool{}
	)
	if m.T[0] == 'T' {
		remaining[env.Origin.Handler.Identity().Name] = true
	} else {
		for _, h := range p.c.App.ConsumersOf(m.T) {
			remaining[h.Name] = true
		}
	}

	same := func(x *envelope.Envelope) error {
		if x != env && !reflect.DeepEqual(x, env) {
			return fmt.Errorf("fact refers to another message, %v", x)
		}
		return nil
	}
	takesPart := func(h configkit.RichHandler, enabled bool) error {
		name := h.Identity().Name
		if !remaining[name] {
			return fmt.Errorf("%s is not expected to take part", name)
		}
		delete(remaining, name)
		if en, _ := sim.Enabled(p.spec(h), p.op.Opts); en != enabled {
			return fmt.Errorf("%s: enabled is %v", name, en)
		}
		return nil
	}

	for {
		switch f := p.nextFact().(type) {
		case fact.HandlingSkipped:
			if err := errors.Join(same(f.Envelope), takesPart(f.Handler, false)); err != nil {
				return err
			}

		case fact.HandlingBegun:
			if err := errors.Join(same(f.Envelope), takesPart(f.Handler, true)); err != nil {
				return err
			}
			region, end, ok := until[fact.HandlingCompleted](p)
			if !ok {
				return fmt.Errorf("handling by %s is not completed", f.Handler.Identity().Name)
			}
			if end.Handler.Identity().Name != f.Handler.Identity().Name {
				return fmt.Errorf("handling by %s is completed instead of %s", end.Handler.Identity().Name, f.Handler.Identity().Name)
			}
			if err := same(end.Envelope); err != nil {
				return err
			}
			failure, err := p.handling(p.spec(f.Handler), env, region)
			if err != nil {
				return fmt.Errorf("handling by %s: %w", f.Handler.Identity().Name, err)
			}
			if err := sameError(end.Error, failure); err != nil {
				return fmt.Errorf("handling by %s: %w", f.Handler.Identity().Name, err)
			}
			if failure != nil {
				expected[failure.(*sim.Error)] = true
			}

		case fact.DispatchCompleted:
			if err := same(f.Envelope); err != nil {
				return err
			}
			for h := range remaining {
				return fmt.Errorf("%s neither handles nor skips the message", h)
			}
			got := scriptedErrors(f.Error)
			if (f.Error == nil) != (len(expected) == 0) || len(got) != len(expected) {
				return fmt.Errorf("completed with error %v, expected %d handler errors", f.Error, len(expected))
			}
			for _, e := range got {
				if !expected[e] {
					return fmt.Errorf("completed with unexpected error %q", e)
				}
			}
			p.st.ClassIf(len(expected) > 1, "several errors for one message")
			return nil

		case nil:
			return fmt.Errorf("is not completed, or a handler was called outside of its handling")

		default:
			return fmt.Errorf("unexpected %T outside of any handler", f)
		}
	}
}

// handling verifies the facts announced while one handler handles one message.
// It returns the error that is expected to be the result.
func (p *factParser) handling(h *sim.Handler, env *envelope.Envelope, region []*sim.Entry) (error, error) {
	var (
		m = asContent(env.Message)

		// queue contains descriptions of the facts that are expected before
		// anything else happens.
		queue   []string
		failure error
		looked  bool
		err     error
		inst    string
		number  int

		compactErr error
	)

	if h.Type == sim.Projection {
		region, compactErr, err = p.compactions(h, region)
		if err != nil {
			return nil, err
		}
	}

	expect := func(f ...string) {
		queue = append(queue, f...)
	}

	live := p.aggregates
	if h.Type == sim.Process {
		live = p.processes
	}
	key := func() string { return h.Name + "/" + inst }

	var (
		exists    bool // while handling
		destroyed bool // destroyed while handling
		ended     bool
	)

	begin := func() {
		looked = true
		exists = live[key()]
		switch {
		case h.Type == sim.Aggregate && exists:
			expect("AggregateInstanceLoaded " + inst)
		case h.Type == sim.Aggregate:
			expect("AggregateInstanceNotFound " + inst)
		case exists:
			expect("ProcessInstanceLoaded " + inst)
		default:
			expect("ProcessInstanceNotFound "+inst, "ProcessInstanceBegun "+inst)
		}
	}

	if m.T[0] == 'T' {
		inst = env.Origin.InstanceID
		if !live[key()] {
			p.st.Class("timeout ignored")
			expect("ProcessTimeoutIgnored " + inst)
		} else {
			begin()
		}
	}

	var x *call
	for i, e := range region {
		switch e.Kind {
		case sim.Fact:
			number++

			// The facts that precede something done by the handler are implied
			// by what it does next.
			if len(queue) == 0 {
				for _, d := range region[i+1:] {
					if d.Kind != sim.Done {
						continue
					}
					switch d.Do.K {
					case sim.Destroy:
						if exists {
							expect("AggregateInstanceDestroyed " + inst)
							exists, destroyed = false, true
							p.st.Class("destroyed")
						}
					case sim.End:
						if !ended {
							expect("ProcessInstanceEnded " + inst)
							ended = true
							p.st.Class("ended")
						}
					case sim.Record:
						if h.Type == sim.Integration {
							expect(fmt.Sprintf("EventRecordedByIntegration #%d", d.Do.M.K))
							break
						}
						if !exists && destroyed {
							expect("AggregateInstanceDestructionReverted " + inst)
							p.st.Class("destruction reverted")
						} else if !exists {
							expect("AggregateInstanceCreated " + inst)
						}
						exists, destroyed = true, false
						expect(fmt.Sprintf("EventRecordedByAggregate %s #%d", inst, d.Do.M.K))
					case sim.Execute, sim.Schedule:
						if ended {
							expect("ProcessInstanceEndingReverted " + inst)
							p.st.Class("ending reverted")
						}
						ended = false
						if d.Do.K == sim.Execute {
							expect(fmt.Sprintf("CommandExecutedByProcess %s #%d", inst, d.Do.M.K))
						} else {
							expect(fmt.Sprintf("TimeoutScheduledByProcess %s #%d", inst, d.Do.M.K))
						}
					case sim.Log:
						expect(fmt.Sprintf("MessageLogged %s %q %v", inst, d.Do.S, d.Do.N))
						p.st.Class("log message")
					}
					break
				}
			}

			text, err := p.describe(h, env, e.Fact)
			if err != nil {
				return nil, err
			}
			if len(queue) == 0 {
				return nil, fmt.Errorf("unexpected fact: %s", text)
			}
			if text != queue[0] {
				return nil, fmt.Errorf("fact is %q, expected %q", text, queue[0])
			}
			queue = queue[1:]

			switch f := e.Fact.(type) {
			case fact.AggregateInstanceLoaded:
				err = p.rootID(region[i:], h, f.Root)
			case fact.ProcessInstanceLoaded:
				err = p.rootID(region[i:], h, f.Root)
			case fact.ProcessInstanceBegun:
				err = p.rootID(region[i:], h, f.Root)
			}
			if err != nil {
				return nil, err
			}

		case sim.Call:
			if len(queue) != 0 {
				return nil, fmt.Errorf("%s.%s was called before %q was announced", e.H, e.Method, queue[0])
			}
			if e.H != h.Name {
				return nil, fmt.Errorf("%s.%s was called", e.H, e.Method)
			}
			x = p.calls[e.Call]
			if x.isHandle() && (h.Type == sim.Aggregate || h.Type == sim.Process) && !looked {
				return nil, fmt.Errorf("%s.%s was called before its instance was looked up", e.H, e.Method)
			}

		case sim.Return:
			if e.Err != nil && failure == nil {
				failure = e.Err
			}
			switch e.Method {
			case "RouteCommandToInstance":
				inst = e.ID
				begin()
			case "RouteEventToInstance":
				if e.Err == nil {
					if e.OK {
						inst = e.ID
						begin()
					} else {
						expect("ProcessEventIgnored")
					}
				}
			}

		case sim.Done:
			if len(queue) != 0 {
				return nil, fmt.Errorf("%q is not announced", queue[0])
			}
			// Verify that what was done has been announced.
			if missing := p.missing(h, e, exists, ended); missing != "" {
				return nil, fmt.Errorf("%q is not announced", missing)
			}
		}
	}

	if len(queue) != 0 {
		return nil, fmt.Errorf("%q is not announced", queue[0])
	}

	p.st.NonTrivial(number >= 4)

	if looked && x != nil && x.isHandle() {
		switch h.Type {
		case sim.Aggregate:
			live[key()] = exists
		case sim.Process:
			if failure == nil {
				live[key()] = !ended
			}
		}
	}

	// Verify that there are as many facts as there are things done.
	if failure == nil {
		failure = compactErr
	}
	return failure, p.completeness(h, region)
}

// completeness verifies that each thing done by a handler has its own fact.
func (p *factParser) completeness(h *sim.Handler, region []*sim.Entry) error {
	var facts, done int
	for _, e := range region {
		switch e.Kind {
		case sim.Fact:
			switch e.Fact.(type) {
			case fact.EventRecordedByAggregate, fact.EventRecordedByIntegration,
				fact.CommandExecutedByProcess, fact.TimeoutScheduledByProcess,
				fact.MessageLoggedByAggregate, fact.MessageLoggedByProcess,
				fact.MessageLoggedByIntegration, fact.MessageLoggedByProjection:
				facts++
			}
		case sim.Done:
			if isProduction(e.Do.K) || e.Do.K == sim.Log {
				done++
				if facts != done {
					return fmt.Errorf("%s by %s is not announced", e.Do.K, h.Name)
				}
			}
		}
	}
	return nil
}

// missing returns a description of the state change that should have been
// announced by now.
func (p *factParser) missing(h *sim.Handler, e *sim.Entry, exists, ended bool) string {
	switch {
	case e.Do.K == sim.Destroy && exists:
		return "AggregateInstanceDestroyed"
	case e.Do.K == sim.End && !ended:
		return "ProcessInstanceEnded"
	case e.Do.K == sim.Record && h.Type == sim.Aggregate && !exists:
		return "AggregateInstanceCreated"
	case (e.Do.K == sim.Execute || e.Do.K == sim.Schedule) && ended:
		return "ProcessInstanceEndingReverted"
	}
	return ""
}

// rootID verifies that the handler is given a specific root.
func (p *factParser) rootID(region []*sim.Entry, h *sim.Handler, root any) error {
	id := 0
	switch r := root.(type) {
	case *sim.AggregateRoot:
		id = r.ID
	default:
		if r := sim.ProcessRootOf(r); r != nil {
			id = r.ID
		}
	}
	for _, e := range region {
		if e.Kind == sim.Call && e.RootID != id {
			return fmt.Errorf("the announced root is not the one that was given to %s", h.Name)
		}
	}
	return nil
}

// describe returns a description of a fact announced while handling env.
func (p *factParser) describe(h *sim.Handler, env *envelope.Envelope, f fact.Fact) (string, error) {
	v := reflect.ValueOf(f)
	name := v.Type().Name()

	if x := v.FieldByName("Handler").Interface().(configkit.Handler); x.Identity().Name != h.Name {
		return "", fmt.Errorf("%s refers to handler %s", name, x.Identity())
	}

	handled, produced := envelopes(f)
	if handled != env && !reflect.DeepEqual(handled, env) {
		return "", fmt.Errorf("%s refers to message %v", name, handled)
	}

	parts := []string{name}
	if strings.HasPrefix(name, "MessageLoggedBy") {
		parts[0] = "MessageLogged"
		if h.Type == sim.Integration || h.Type == sim.Projection {
			parts = append(parts, "")
		}
		if strings.ToLower(strings.TrimPrefix(name, "MessageLoggedBy")) != h.Type {
			return "", fmt.Errorf("%s announced for %s", name, h.Type)
		}
	}
	if id := v.FieldByName("InstanceID"); id.IsValid() {
		parts = append(parts, id.String())
	}
	if produced != nil {
		parts = append(parts, fmt.Sprintf("#%d", asContent(produced.Message).K))
	}
	if x := v.FieldByName("LogFormat"); x.IsValid() {
		args := v.FieldByName("LogArguments").Interface().([]any)
		if want := sim.LogArgs(len(args)); !slices.Equal(args, want) {
			return "", fmt.Errorf("%s has arguments %v, expected %v", name, args, want)
		}
		parts = append(parts, fmt.Sprintf("%q", x.String()), fmt.Sprint(len(args)))
	}
	return strings.Join(slices.Clip(parts), " "), nil
}
