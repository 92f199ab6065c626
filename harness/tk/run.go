package tk

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/location"
	"verif/harness/sim"
)

// The kinds of action.
const (
	Dispatch = "dispatch" // execute a command or record an event
	By       = "by"       // advance time by D milliseconds
	To       = "to"       // advance time to D milliseconds after the epoch
	Adjust   = "adjust"   // advance time by D milliseconds, using a custom adjustment
	Call     = "call"     // call a function that performs Calls
	Failing  = "failing"  // a custom action that fails with error S
	Jump     = "jump"     // a custom action that only moves the clock by D milliseconds
	Several  = "several"  // a custom action that performs Parts
)

// Act is an action.
type Act struct {
	K     string
	M     *sim.Msg  `json:",omitempty"`
	D     int64     `json:",omitempty"`
	Zone  int       `json:",omitempty"` // offset of the time zone used, in hours
	S     string    `json:",omitempty"`
	Calls []*CallOp `json:",omitempty"`

	// Own is true if the action is implemented by user code.
	Own bool `json:",omitempty"`

	// Parts are performed one after another.
	Parts []*Act `json:",omitempty"`

	// Match is true if expectations consider the messages that are dispatched
	// by Parts.
	Match bool `json:",omitempty"`
}

// CallOp is something done by user code within a call action.
type CallOp struct {
	K string   // "execute" or "panic"
	M *sim.Msg `json:",omitempty"`
}

// Step is a step of a test.
type Step struct {
	Acts []*Act

	// E is the expectation of the (only) action, if any.
	E *Exp `json:",omitempty"`

	// On and Off are the names of handlers to enable and disable before
	// performing the actions.
	On, Off []string `json:",omitempty"`
}

// Case is a test.
type Case struct {
	App *sim.App

	// Opts are applied when the test begins.
	Opts []sim.Opt `json:",omitempty"`

	Comparator string `json:",omitempty"`

	Steps []*Step
}

// Run is a running test.
type Run struct {
	Case  *Case
	World *sim.World
	T     *T
	Test  *testkit.Test

	// Context is the context of the test, Contexts are those given to the
	// executor, by operation.
	Context  context.Context
	Contexts map[int]context.Context

	// Cancel cancels the context of the test.
	Cancel context.CancelFunc

	// Ops and Results are the operations that the engine was to perform, and
	// their results where known.
	Ops     []*sim.EngineOp
	Results []sim.Result

	// Clock is the current time.
	Clock int64

	// Opts are the options in force.
	Opts []sim.Opt

	Builder Builder

	// Called is the number of call operations performed.
	Called int

	// CallEnded is the builder's logical time at which the last call action
	// of the current step ended.
	CallEnded int

	// Acted are the indices of Ops, by step and action.
	Acted map[[2]int][]int

	// Executed is the set of indices of Ops that were caused by use of the
	// command executor.
	Executed map[int]bool

	// Own are the uses of actions that are implemented by user code.
	Own []*OwnAction

	step, act int
}

// Outside is the operation index to which things are attributed that happen
// outside of any action.
const Outside = -2

// Begin starts a test.
func Begin(c *Case, opts ...testkit.TestOption) *Run {
	r := &Run{
		Case:  c,
		World: sim.New(c.App),
		Acted: map[[2]int][]int{},

		Executed: map[int]bool{},
		Contexts: map[int]context.Context{},
	}
	r.World.Begin(Outside)
	r.T = &T{World: r.World}
	r.T.SetStep(-1)
	r.Opts = append(
		[]sim.Opt{{Type: sim.Projection}, {Type: sim.Integration}},
		c.Opts...,
	)

	all := []testkit.TestOption{
		testkit.StartTimeAt(sim.At(0)),
		testkit.WithUnsafeOperationOptions(engine.WithObserver(r.World)),
	}
	for _, o := range c.Opts {
		all = append(all, testkit.WithUnsafeOperationOptions(o.Option()))
	}
	if c.Comparator != CompareDefault {
		all = append(all, testkit.WithMessageComparator(Comparator(c.Comparator)))
	}
	all = append(all, opts...)

	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	r.Cancel = cancel
	r.World.SetCancel(cancel)
	ctx = context.WithValue(ctx, CtxKey{}, r)
	r.Context = ctx
	r.Test = testkit.BeginContext(ctx, r.T, r.World.Application(), all...)
	return r
}

// StepResult is the result of a step.
type StepResult struct {
	// Panicked is true if the step panicked, other than to stop the test.
	Panicked bool
	Panic    any

	// Stopped is true if the test was stopped.
	Stopped bool

	Calls []TCall
}

// Of returns the calls to the given method of T.
func (r StepResult) Of(method string) []TCall {
	var res []TCall
	for _, c := range r.Calls {
		if c.Method == method {
			res = append(res, c)
		}
	}
	return res
}

// Do performs fn as the n'th step.
func (r *Run) Do(n int, fn func()) StepResult {
	r.step = n
	r.CallEnded = 0
	r.T.SetStep(n)
	res := sim.Capture(func() error {
		fn()
		return nil
	})
	r.World.Begin(Outside)
	sr := StepResult{Calls: r.T.Calls(n)}
	if res.Panicked {
		if _, ok := res.Panic.(Abort); ok {
			sr.Stopped = true
		} else {
			sr.Panicked, sr.Panic = true, res.Panic
		}
	}
	return sr
}

// Step performs the n'th step.
func (r *Run) Step(n int, s *Step) StepResult {
	return r.Do(n, func() {
		if len(s.On) > 0 {
			r.Test.EnableHandlers(s.On...)
			for _, h := range s.On {
				r.Opts = append(r.Opts, sim.Opt{Name: h, On: true})
			}
		}
		if len(s.Off) > 0 {
			r.Test.DisableHandlers(s.Off...)
			for _, h := range s.Off {
				r.Opts = append(r.Opts, sim.Opt{Name: h})
			}
		}
		if s.E != nil {
			r.before(0, s.Acts[0])
			r.Test.Expect(r.Action(s.Acts[0]), r.Builder.Build(s.E))
			return
		}

		// Actions are separated by others that keep track of where we are.
		var acts []testkit.Action
		for i, a := range s.Acts {
			acts = append(
				acts,
				&custom{do: func() error {
					r.before(i, a)
					return nil
				}},
				r.Action(a),
			)
		}
		r.Test.Prepare(acts...)
	})
}

// before is called just before an action is performed.
func (r *Run) before(n int, a *Act) {
	r.act = n
	switch a.K {
	case Dispatch:
		r.BeginOp(&sim.EngineOp{K: "dispatch", M: a.M})
	case Jump:
		r.Clock += a.D
		r.World.Begin(Outside)
	case By, To, Adjust:
		now := a.Target(r.Clock)
		if now < r.Clock {
			r.World.Begin(Outside)
			return
		}
		r.Clock = now
		r.BeginOp(&sim.EngineOp{K: "tick"})
	default:
		r.World.Begin(Outside)
	}
}

// Target returns the time to which the clock is moved by a.
func (a *Act) Target(clock int64) int64 {
	if a.K == To {
		return a.D
	}
	return clock + a.D
}

// BeginOp marks the beginning of an operation on the engine.
func (r *Run) BeginOp(op *sim.EngineOp) {
	op.Now = r.Clock
	op.Opts = append([]sim.Opt(nil), r.Opts...)
	k := [2]int{r.step, r.act}
	r.Acted[k] = append(r.Acted[k], len(r.Ops))
	r.World.Begin(len(r.Ops))
	r.Ops = append(r.Ops, op)
	r.Results = append(r.Results, sim.Result{})
}

// Model returns the case that is equivalent to the actions performed so far.
func (r *Run) Model() *sim.Case {
	return &sim.Case{App: r.Case.App, Ops: r.Ops, Compact: true}
}

// Action returns the testkit action.
func (r *Run) Action(a *Act) testkit.Action {
	if a.Own {
		return &OwnAction{r: r, Act: a}
	}
	switch a.K {
	case Dispatch:
		if a.M.T[0] == 'C' {
			return testkit.ExecuteCommand(a.M.Command())
		}
		return testkit.RecordEvent(a.M.Event())
	case By:
		return testkit.AdvanceTime(testkit.ByDuration(sim.Duration(a.D)))
	case To:
		return testkit.AdvanceTime(testkit.ToTime(a.in(sim.At(a.D))))
	case Adjust:
		return testkit.AdvanceTime(adjustment{a})
	case Call:
		return testkit.Call(func() { r.call(a) })
	case Failing:
		return &custom{do: func() error { return errors.New(a.S) }}
	}
	panic("unknown action: " + a.K)
}

func (a *Act) in(t time.Time) time.Time {
	if a.Zone == 0 {
		return t
	}
	return t.In(time.FixedZone("zone", a.Zone*3600))
}

func (r *Run) call(a *Act) {
	defer func() { r.CallEnded = r.Builder.Mark() }()
	for _, op := range a.Calls {
		r.Called++
		switch op.K {
		case "execute":
			r.BeginOp(&sim.EngineOp{K: "dispatch", M: op.M})
			n := len(r.Ops) - 1
			r.Executed[n] = true
			ctx, cancel := context.WithTimeout(context.WithValue(context.Background(), CtxKey{}, n), 59*time.Second)
			r.Contexts[n] = ctx
			r.Results[n].Err = r.Test.CommandExecutor().ExecuteCommand(ctx, op.M.Command())
			cancel()
			r.World.Begin(Outside)
		case "panic":
			panic(CallPanic)
		}
	}
}

// CallPanic is the value used to panic within user code.
const CallPanic = "<panic in user code>"

type adjustment struct {
	a *Act
}

func (x adjustment) Description() string {
	return fmt.Sprintf("by custom adjustment of %s", sim.Duration(x.a.D))
}

func (x adjustment) Step(t time.Time) time.Time {
	return x.a.in(t.Add(sim.Duration(x.a.D)))
}

// custom is a custom action.
type custom struct {
	do func() error
}

func (c *custom) Caption() string                               { return "custom action" }
func (c *custom) Location() location.Location                   { return location.Location{} }
func (c *custom) ConfigurePredicate(*testkit.PredicateOptions)  {}
func (c *custom) Do(context.Context, testkit.ActionScope) error { return c.do() }

// Produced returns the messages that an expectation of the given step and
// action is judged on.
func (r *Run) Produced(step int) []*sim.Msg {
	var (
		res []*sim.Msg
		in  = map[int]bool{}
		act = r.Case.Steps[step].Acts[0]
	)
	for _, n := range r.Acted[[2]int{step, 0}] {
		in[n] = true
		if r.Ops[n].M != nil && (act.K == Call || act.Match) {
			res = append(res, r.Ops[n].M)
		}
	}
	for _, e := range r.World.Trace() {
		if e.Kind == sim.Done && in[e.Op] {
			switch e.Do.K {
			case sim.Record, sim.Execute, sim.Schedule:
				res = append(res, e.Do.M)
			}
		}
	}
	return res
}

var _ dogma.Command = AnyCommand(nil)
