package checks

import (
	"fmt"
	"slices"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

func init() {
	prop.Register("P30", prop.Options{
		Rule: "A case is an application and a test of 1 to 6 steps, most of whose actions are implemented by user code, with trees of expectations some of which are implemented by user code that defers to the one it wraps. " +
			"It is non-trivial if there are at least 2 steps with actions of the user's own that have an effect, and an expectation of the user's own.",
		Quick:    75000,
		Thorough: 600000,
	}, p30Draw, func(cp **tk.Case, st *prop.Stats) error {
		c := *cp
		r := tk.Begin(c)
		effective, own := 0, false
		var predicates []*tk.OwnPredicate

		for i, s := range c.Steps {
			r.Builder.Clear()
			r.Own = nil
			before := r.World.Len()
			res := r.Step(i, s)
			trace := r.World.Trace()[before:]
			if res.Panicked {
				return fmt.Errorf("step %d panicked: %v", i, res.Panic)
			}

			failed, err := p30Actions(r, i, s, res, trace)
			if err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if len(trace) > 0 && slices.ContainsFunc(s.Acts, func(a *tk.Act) bool { return a.Own }) {
				effective++
			}
			if s.E != nil {
				own = own || len(r.Builder.Own) > 0
				if err := p30Expectations(c, r, i, s, failed, trace, res, st); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
			}
			for _, p := range predicates {
				if p.Premature {
					return fmt.Errorf("step %d: the predicate of a %s expectation of an earlier step is notified", i, p.Exp.K)
				}
			}
			predicates = append(predicates, r.Builder.Own...)
			st.ClassIf(failed, "action fails")
		}

		m := r.Model()
		trace := r.World.Trace()
		s := &prop.Stats{}
		for _, err := range []error{
			checkErrors(m, trace, r.Results, s),
			checkEnvelopes(m, trace, s),
			checkAggregates(m, trace, s),
			checkProcesses(m, trace, nil, s),
			checkTimeouts(m, trace, s),
			p30Times(r),
		} {
			if err != nil {
				return fmt.Errorf("actions, as operations on the engine: %w", err)
			}
		}
		st.NonTrivial(effective >= 2 && own)
		return nil
	})
}

func p30Draw(t *rapid.T) *tk.Case {
	g := sim.Gen{
		Max:          map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 1, sim.Projection: 1},
		MaxMessages:  6,
		NumInstances: 2,
		Times:        []int64{0, 1000, 2000},
		Schedule:     2,
		Ops:          []string{sim.Destroy, sim.End, sim.Log},
	}.Defaults()
	c := &tk.Case{App: g.App(t)}
	failing := sim.OneIn(t, 3)
	if failing {
		g.Ops = append(g.Ops, sim.Fail)
	}
	for _, typ := range []string{sim.Integration, sim.Projection} {
		if rapid.Bool().Draw(t, "enabled") {
			c.Opts = append(c.Opts, sim.Opt{Type: typ, On: true})
		}
	}
	c.Comparator = sim.Pick(t, []string{tk.CompareDefault, tk.CompareDefault, tk.CompareDefault, tk.CompareAlways, tk.CompareNever})

	kinds := []string{tk.Dispatch, tk.Dispatch, tk.Dispatch, tk.By, tk.By, tk.Call, tk.Jump, tk.Several, tk.Several}
	if failing {
		kinds = append(kinds, tk.Failing)
	}
	var expects []*tk.Step
	for range sim.Count(t, 1, 6, 15) {
		s := &tk.Step{}
		n := 1
		if !sim.OneIn(t, 3) {
			expects = append(expects, s)
		} else {
			n = sim.Int(t, 1, 3)
		}
		for range n {
			a := tk.Action(t, g, c.App, kinds, 0)
			a.Own = !sim.OneIn(t, 4)
			switch a.K {
			case tk.Failing:
				a.S = g.Error(t, "action")
			case tk.Jump:
				a.D = sim.Pick(t, g.Times)
				a.Own = true
			case tk.Several:
				a.Own = true
				a.Match = rapid.Bool().Draw(t, "match")
				for range sim.Count(t, 0, 3, 12) {
					p := tk.Action(t, g, c.App, []string{tk.Dispatch, tk.Dispatch, tk.By, tk.Jump}, 0)
					if p.K == tk.Jump {
						p.D = sim.Pick(t, g.Times)
					}
					a.Parts = append(a.Parts, p)
				}
			}
			s.Acts = append(s.Acts, a)
		}
		c.Steps = append(c.Steps, s)
	}
	c.AssignKeys()
	for _, s := range expects {
		eg := tk.Gen{
			App:   c.App,
			Act:   s.Acts[0],
			Depth: sim.Int(t, 0, 2),
			Width: 3,
			Kinds: []string{tk.Message, tk.Message, tk.Type, tk.OfType, tk.Match, tk.Only, tk.Fixed},
		}
		s.E = eg.Exp(t)
		s.E.Walk(func(e *tk.Exp) {
			e.Own = rapid.Bool().Draw(t, "own")
		})
	}
	return c
}

// p30Actions checks that the actions of a step are performed up to the first
// that fails.
func p30Actions(r *tk.Run, i int, s *tk.Step, res tk.StepResult, trace []*sim.Entry) (failed bool, err error) {
	for _, a := range r.Own {
		if a.Problem != "" {
			return false, fmt.Errorf("an action is performed with an unusable scope: %s", a.Problem)
		}
		if a.Step != i {
			return false, fmt.Errorf("an action of step %d is performed", a.Step)
		}
		if s.E != nil && a.Configured == 0 {
			return false, fmt.Errorf("an action is not asked to configure predicates")
		}
	}

	errs := map[int]bool{}
	for _, e := range trace {
		if e.Kind == sim.Return && e.Err != nil {
			errs[e.Op] = true
		}
	}

	next := 0
	for j, a := range s.Acts {
		ops := r.Acted[[2]int{i, j}]
		if failed {
			if len(ops) > 0 {
				return true, fmt.Errorf("action %d is performed after an earlier one failed", j)
			}
			continue
		}
		fatal := res.Of("Fatal")
		expect := a.K == tk.Failing
		switch a.K {
		case tk.Call:
			// Errors are given to the user's code.
		default:
			for _, n := range ops {
				expect = expect || errs[n]
			}
		}

		var failure error
		if a.Own {
			if next >= len(r.Own) || r.Own[next].Act != a {
				return false, fmt.Errorf("action %d is not performed", j)
			}
			failure = r.Own[next].Err
			next++
			if expect != (failure != nil) {
				return false, fmt.Errorf("action %d returns %v, handlers failed=%t", j, failure, expect)
			}
		}
		if !expect {
			continue
		}
		failed = true
		if len(fatal) != 1 || !res.Stopped || len(fatal[0].Args) != 1 {
			return true, fmt.Errorf("action %d fails, but the test has %d fatal failures, stopped=%t", j, len(fatal), res.Stopped)
		}
		got, ok := fatal[0].Args[0].(error)
		if !ok || failure != nil && got != failure {
			return true, fmt.Errorf("action %d fails with %q, but the test is failed with %v", j, failure, fatal[0].Args[0])
		}
		if a.K != tk.Failing {
			r.Results[ops[len(ops)-1]].Err = got
		}
	}
	if next != len(r.Own) {
		return false, fmt.Errorf("%d actions are performed, expected %d", len(r.Own), next)
	}
	if !failed && len(res.Of("Fatal")) > 0 {
		return false, fmt.Errorf("the test fails fatally, even though no action failed: %s", res.Of("Fatal")[0].Text)
	}
	return failed, nil
}

// p30Expectations checks how expectations are used, and their verdicts.
func p30Expectations(
	c *tk.Case,
	r *tk.Run,
	i int,
	s *tk.Step,
	failed bool,
	trace []*sim.Entry,
	res tk.StepResult,
	st *prop.Stats,
) error {
	var facts []fact.Fact
	for _, e := range trace {
		if e.Kind == sim.Fact {
			facts = append(facts, e.Fact)
		}
	}

	act := s.Acts[0]
	obs := tk.Observed{Messages: r.Produced(i), Comparator: c.Comparator}
	holds := s.E.Holds(obs)
	inverted := map[*tk.Exp]bool{}
	p30Inverted(s.E, false, inverted)
	uses := map[*tk.Exp]int{}

	for _, p := range r.Builder.Own {
		uses[p.Exp]++
		switch {
		case p.Scope.App == nil || p.Scope.App.Identity().Name != tk.AppName:
			return fmt.Errorf("the predicate of a %s expectation is made for the application %v", p.Exp.K, p.Scope.App)
		case p.Scope.Options.MatchDispatchCycleStartedFacts != (act.K == tk.Call || act.Match):
			return fmt.Errorf("the options of the predicate of a %s expectation are not those of the action", p.Exp.K)
		case !p30Comparator(c.Comparator, p.Scope.Options.MessageComparator):
			return fmt.Errorf("the comparator given to the predicate of a %s expectation is not that of the test", p.Exp.K)
		case p.Finalised != 1:
			return fmt.Errorf("the predicate of a %s expectation is finalised %d times", p.Exp.K, p.Finalised)
		case p.Premature:
			return fmt.Errorf("the predicate of a %s expectation is finalised too early, or reported on too early", p.Exp.K)
		case !slices.EqualFunc(p.Facts, facts, sameFact):
			return fmt.Errorf("the predicate of a %s expectation is notified of %d facts, expected %d", p.Exp.K, len(p.Facts), len(facts))
		case failed && p.Reports != 0:
			return fmt.Errorf("there is a report even though the action fails")
		case p.Reports != 0 && p.Context.TreeOk != holds:
			return fmt.Errorf("a report is made in the context of a tree that is ok=%t, expected %t", p.Context.TreeOk, holds)
		case p.Misreported:
			return fmt.Errorf("the report for a %s expectation contradicts its verdict or that of the tree", p.Exp.K)
		case p.Reports != 0 && p.Context.IsInverted != inverted[p.Exp]:
			return fmt.Errorf("a report for a %s expectation is made in a context that is inverted=%t, expected %t", p.Exp.K, p.Context.IsInverted, inverted[p.Exp])
		}
	}
	for e, n := range countUses(s.E, 1, map[*tk.Exp]int{}) {
		if e.Own && uses[e] != n {
			return fmt.Errorf("a %s expectation is asked for %d predicates, expected %d", e.K, uses[e], n)
		}
	}
	if failed {
		return nil
	}

	reports := p19Reports(res)
	if len(reports) != 1 {
		return fmt.Errorf("there are %d reports", len(reports))
	}
	if n := len(res.Of("FailNow")); n > 1 || (n == 1) == holds {
		return fmt.Errorf("the expectation holds=%t, but the test is failed %d times, given %s", holds, n, describeMessages(obs.Messages))
	}
	st.Class(fmt.Sprintf("%s, own=%t, verdict=%t", act.K, act.Own, holds))

	if c.Comparator != tk.CompareDefault || act.K != tk.Dispatch && act.K != tk.By && act.K != tk.Call {
		return nil
	}
	n, err := parseReport(reports[0].Text)
	if err != nil {
		return fmt.Errorf("%w\n%s", err, reports[0].Text)
	}
	x := &explainer{
		app:        c.App,
		act:        act,
		obs:        obs,
		trace:      trace,
		stats:      &prop.Stats{},
		dispatched: act.K != tk.By && len(r.Acted[[2]int{i, 0}]) > 0,
		opts:       r.Opts,
		treeOK:     holds,
	}
	if err := x.check(n, s.E, false); err != nil {
		return fmt.Errorf("%w, given %s\n%s", err, describeMessages(obs.Messages), reports[0].Text)
	}
	return nil
}

// p30Comparator returns true if fn is the comparator of the given kind.
func p30Comparator(kind string, fn testkit.MessageComparator) bool {
	if fn == nil {
		return kind == tk.CompareDefault
	}
	a, b := &sim.Msg{T: "C0", K: 1}, &sim.Msg{T: "C0", K: 2}
	return fn(a.Message(), b.Message()) == tk.Compare(kind, a, b) &&
		fn(a.Message(), a.Message()) == tk.Compare(kind, a, a)
}

// p30Inverted finds the expectations that are reported on within an odd number
// of negations.
func p30Inverted(e *tk.Exp, inverted bool, res map[*tk.Exp]bool) {
	res[e] = inverted
	if e.K == tk.Not || e.K == tk.None {
		inverted = !inverted
	}
	for _, c := range e.C {
		p30Inverted(c, inverted, res)
	}
}

// p30Times checks that every operation is performed at the time of the clock.
func p30Times(r *tk.Run) error {
	for _, e := range r.World.Trace() {
		if t, ok := factTime(e); ok && !t.Equal(sim.At(r.Ops[e.Op].Now)) {
			return fmt.Errorf("operation %d is performed at %s, expected %s", e.Op, t, sim.At(r.Ops[e.Op].Now))
		}
	}
	return nil
}
