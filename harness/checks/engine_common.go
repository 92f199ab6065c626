// Package checks contains the properties of testkit that are checked.
package checks

import (
	"errors"
	"fmt"
	"slices"
	"strings"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"go.uber.org/multierr"
	"verif/harness/sim"
)

// call is a call to a method of a handler, with everything that was done
// during the call.
type call struct {
	*sim.Entry
	spec *sim.Handler
	done []*sim.Entry
	end  *sim.Entry // nil if the call never ended
}

// failed returns true if the call returned an error or panicked.
func (c *call) failed() bool {
	return c.end == nil || c.end.Kind == sim.Thrown || c.end.Err != nil
}

// isHandle returns true if c is a call to a method that handles a message.
func (c *call) isHandle() bool {
	switch c.Method {
	case "HandleCommand", "HandleEvent", "HandleTimeout":
		return true
	}
	return false
}

// isDelivery returns true if c is the call by which a message is first given
// to a handler.
func (c *call) isDelivery() bool {
	switch c.spec.Type {
	case sim.Process:
		return c.Method == "RouteEventToInstance" || c.Method == "HandleTimeout"
	default:
		return c.isHandle()
	}
}

// produced returns the messages of the given kinds ("C", "E" or "T") that were
// produced by the call.
func (c *call) produced(kinds string) []*sim.Msg {
	var res []*sim.Msg
	for _, d := range c.done {
		if isProduction(d.Do.K) && strings.Contains(kinds, d.Do.M.T[:1]) {
			res = append(res, d.Do.M)
		}
	}
	return res
}

func isProduction(k string) bool {
	return k == sim.Record || k == sim.Execute || k == sim.Schedule
}

// endsInstance returns true if the calls in d, as made by a process handler,
// leave the instance ended.
func endsInstance(d []*sim.Entry) bool {
	ended := false
	for _, e := range d {
		switch e.Do.K {
		case sim.End:
			ended = true
		case sim.Execute, sim.Schedule:
			ended = false
		}
	}
	return ended
}

// calls returns the calls within a trace, in order of their beginning.
func calls(app *sim.App, trace []*sim.Entry) []*call {
	var (
		res  []*call
		byID = map[int]*call{}
	)
	for _, e := range trace {
		switch e.Kind {
		case sim.Call:
			c := &call{Entry: e, spec: app.Handler(e.H)}
			byID[e.Call] = c
			res = append(res, c)
		case sim.Done:
			byID[e.Call].done = append(byID[e.Call].done, e)
		case sim.Return, sim.Thrown:
			byID[e.Call].end = e
		}
	}
	return res
}

// callsOf returns the calls made during operation op.
func callsOf(cs []*call, op int) []*call {
	var res []*call
	for _, c := range cs {
		if c.Op == op {
			res = append(res, c)
		}
	}
	return res
}

// run runs all of the operations in a case on a new engine.
func run(c *sim.Case, opts ...engine.Option) (*sim.World, []sim.Result) {
	opts = append(opts, engine.EnableProjectionCompactionDuringHandling(c.Compact))
	w := sim.NewEngine(c.App, opts...)
	var res []sim.Result
	for i, op := range c.Ops {
		res = append(res, w.Run(i, op))
	}
	return w, res
}

// noPanics returns an error if any of the results is a panic.
func noPanics(res []sim.Result) error {
	for i, r := range res {
		if r.Panicked {
			return fmt.Errorf("operation %d panicked: %v", i, r.Panic)
		}
	}
	return nil
}

// noErrors returns an error if any of the results is an error.
func noErrors(res []sim.Result) error {
	if err := noPanics(res); err != nil {
		return err
	}
	for i, r := range res {
		if r.Err != nil {
			return fmt.Errorf("operation %d failed: %w", i, r.Err)
		}
	}
	return nil
}

// envelopes returns the envelopes within a fact: the one for the message being
// handled, and the one for the message that was produced.
func envelopes(f fact.Fact) (handled, produced *envelope.Envelope) {
	switch f := f.(type) {
	case fact.DispatchCycleBegun:
		return f.Envelope, nil
	case fact.DispatchCycleCompleted:
		return f.Envelope, nil
	case fact.DispatchBegun:
		return f.Envelope, nil
	case fact.DispatchCompleted:
		return f.Envelope, nil
	case fact.HandlingBegun:
		return f.Envelope, nil
	case fact.HandlingCompleted:
		return f.Envelope, nil
	case fact.HandlingSkipped:
		return f.Envelope, nil
	case fact.AggregateInstanceLoaded:
		return f.Envelope, nil
	case fact.AggregateInstanceNotFound:
		return f.Envelope, nil
	case fact.AggregateInstanceCreated:
		return f.Envelope, nil
	case fact.AggregateInstanceDestroyed:
		return f.Envelope, nil
	case fact.AggregateInstanceDestructionReverted:
		return f.Envelope, nil
	case fact.EventRecordedByAggregate:
		return f.Envelope, f.EventEnvelope
	case fact.MessageLoggedByAggregate:
		return f.Envelope, nil
	case fact.ProcessInstanceLoaded:
		return f.Envelope, nil
	case fact.ProcessEventIgnored:
		return f.Envelope, nil
	case fact.ProcessTimeoutIgnored:
		return f.Envelope, nil
	case fact.ProcessInstanceNotFound:
		return f.Envelope, nil
	case fact.ProcessInstanceBegun:
		return f.Envelope, nil
	case fact.ProcessInstanceEnded:
		return f.Envelope, nil
	case fact.ProcessInstanceEndingReverted:
		return f.Envelope, nil
	case fact.CommandExecutedByProcess:
		return f.Envelope, f.CommandEnvelope
	case fact.TimeoutScheduledByProcess:
		return f.Envelope, f.TimeoutEnvelope
	case fact.MessageLoggedByProcess:
		return f.Envelope, nil
	case fact.EventRecordedByIntegration:
		return f.Envelope, f.EventEnvelope
	case fact.MessageLoggedByIntegration:
		return f.Envelope, nil
	case fact.MessageLoggedByProjection:
		return f.Envelope, nil
	}
	return nil, nil
}

// errorList returns the individual errors within err.
func errorList(err error) []error {
	var res []error
	for _, e := range multierr.Errors(err) {
		res = append(res, e)
	}
	return res
}

// scriptedErrors returns the scripted errors contained in err, however they are
// wrapped.
func scriptedErrors(err error) []*sim.Error {
	var res []*sim.Error
	var walk func(error)
	walk = func(err error) {
		switch err := err.(type) {
		case nil:
		case *sim.Error:
			res = append(res, err)
		case interface{ Unwrap() []error }:
			for _, e := range err.Unwrap() {
				walk(e)
			}
		default:
			if list := multierr.Errors(err); len(list) > 1 {
				for _, e := range list {
					walk(e)
				}
			} else {
				walk(errors.Unwrap(err))
			}
		}
	}
	walk(err)
	return res
}

func asContent(m dogma.Message) *sim.Msg {
	return sim.Of(m)
}

func equalInts(a, b []int) bool {
	return slices.Equal(a, b)
}

func traceText(trace []*sim.Entry, op int) string {
	var b strings.Builder
	for _, e := range trace {
		if e.Op == op || op < 0 {
			fmt.Fprintln(&b, "   ", e)
		}
	}
	return b.String()
}
