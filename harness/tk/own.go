package tk

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/location"
	"verif/harness/sim"
)

// OwnAction is an action that is implemented by user code, as opposed to
// testkit.
type OwnAction struct {
	Act *Act

	// Step is the step in which the action is performed.
	Step int

	// Configured is the number of times predicates were configured.
	Configured int

	// Problem describes what is wrong with the scope, if anything.
	Problem string

	// Err is the result.
	Err error

	r *Run
}

// Caption returns the caption of the action.
func (a *OwnAction) Caption() string { return "performing " + a.Act.K }

// Location returns the location of the action.
func (a *OwnAction) Location() location.Location { return location.Location{} }

// ConfigurePredicate sets options.
func (a *OwnAction) ConfigurePredicate(o *testkit.PredicateOptions) {
	a.Configured++
	if a.Act.K == Call || a.Act.Match {
		o.MatchDispatchCycleStartedFacts = true
	}
}

// Do performs the action.
func (a *OwnAction) Do(ctx context.Context, s testkit.ActionScope) error {
	r := a.r
	a.Step = r.step
	r.Own = append(r.Own, a)

	// The action is already accounted for in the clock.
	before := r.Clock
	switch a.Act.K {
	case By, Jump:
		before -= a.Act.D
	}

	switch {
	case ctx.Value(CtxKey{}) != r:
		a.Problem = "the context is not that of the test"
	case s.App == nil || s.App.Identity().Name != AppName:
		a.Problem = fmt.Sprintf("the application is %v", s.App)
	case s.VirtualClock == nil || !s.VirtualClock.Equal(sim.At(before)):
		a.Problem = fmt.Sprintf("the clock is %v, expected %s", s.VirtualClock, sim.At(before))
	case s.Executor == nil || s.Executor != r.Test.CommandExecutor():
		a.Problem = "the executor is not that of the test"
	case s.Engine == nil:
		a.Problem = "there is no engine"
	default:
		a.Err = a.do(ctx, s, a.Act, false)
	}
	return a.Err
}

func (a *OwnAction) do(ctx context.Context, s testkit.ActionScope, act *Act, part bool) error {
	r := a.r
	advance := func() time.Time {
		if part {
			r.Clock += act.D
		}
		*s.VirtualClock = sim.At(r.Clock)
		return *s.VirtualClock
	}
	opts := append(
		append([]engine.OperationOption(nil), s.OperationOptions...),
		engine.WithCurrentTime(*s.VirtualClock),
	)

	switch act.K {
	case Dispatch:
		if part {
			r.BeginOp(&sim.EngineOp{K: "dispatch", M: act.M})
		} else {
			// The options that are given are sufficient.
			opts = s.OperationOptions
		}
		return s.Engine.Dispatch(ctx, act.M.Message(), opts...)

	case By:
		opts = append(opts, engine.WithCurrentTime(advance()))
		if part {
			r.BeginOp(&sim.EngineOp{K: "tick"})
		}
		return s.Engine.Tick(ctx, opts...)

	case Jump:
		advance()
		return nil

	case Call:
		s.Executor.Bind(s.Engine, s.OperationOptions)
		defer s.Executor.Unbind()
		r.call(act)
		return nil

	case Several:
		for _, p := range act.Parts {
			if err := a.do(ctx, s, p, true); err != nil {
				return err
			}
		}
		r.World.Begin(Outside)
		return nil

	case Failing:
		return errors.New(act.S)
	}
	panic("unknown action: " + act.K)
}

// CtxKey is the key of a value within contexts. It is the Run within the context
// of a test, and the index of the operation within the contexts given to the
// command executor.
type CtxKey struct{}

// AppName is the name of the application.
const AppName = "sim-app"

// ownExpectation is an expectation that is implemented by user code.
type ownExpectation struct {
	b *Builder
	e *Exp
	x testkit.Expectation
}

func (x *ownExpectation) Caption() string { return x.x.Caption() }

func (x *ownExpectation) Predicate(s testkit.PredicateScope) (testkit.Predicate, error) {
	p, err := x.x.Predicate(s)
	if err != nil {
		return nil, err
	}
	o := &OwnPredicate{Exp: x.e, Scope: s, p: p}
	x.b.Own = append(x.b.Own, o)
	return o, nil
}

// OwnPredicate is the predicate of an expectation that is implemented by user
// code.
type OwnPredicate struct {
	Exp   *Exp
	Scope testkit.PredicateScope

	// Facts are the facts that the predicate was notified of.
	Facts []fact.Fact

	// Done and Reports are the number of times the predicate was finalised and
	// reported on.
	Finalised, Reports int

	// Premature is true if the predicate was reported on before it was
	// finalised, or notified afterwards.
	Premature bool

	// Context is the context of the last report.
	Context testkit.ReportGenerationContext

	// Misreported is true if a report contradicts the verdict, or the context
	// that it is made in.
	Misreported bool

	p testkit.Predicate
}

// Notify records a fact.
func (p *OwnPredicate) Notify(f fact.Fact) {
	p.Facts = append(p.Facts, f)
	p.Premature = p.Premature || p.Finalised != 0
	p.p.Notify(f)
}

// Ok returns the verdict.
func (p *OwnPredicate) Ok() bool { return p.p.Ok() }

// Done finalises the predicate.
func (p *OwnPredicate) Done() {
	p.Finalised++
	p.p.Done()
}

// Report returns the report.
func (p *OwnPredicate) Report(ctx testkit.ReportGenerationContext) *testkit.Report {
	p.Reports++
	p.Premature = p.Premature || p.Finalised == 0
	p.Context = ctx
	rep := p.p.Report(ctx)
	p.Misreported = p.Misreported || rep.Ok != p.p.Ok() || !inTree(rep, ctx.TreeOk)
	return rep
}

// inTree returns true if a report and all of its sub-reports say that the tree
// they belong to has the given verdict.
func inTree(rep *testkit.Report, ok bool) bool {
	for _, sub := range rep.SubReports {
		if !inTree(sub, ok) {
			return false
		}
	}
	return rep.TreeOk == ok
}
