package checks

import (
	"fmt"
	"slices"
	"strings"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

func init() {
	prop.Register("P19", prop.Options{
		Rule: "A case is an application and a test of 2 to 8 steps, each either up to 3 preparatory actions or an action with an expectation, where the expectations are chosen from a small pool of values that are used repeatedly. " +
			"It is non-trivial if some expectation value is used by two steps with different verdicts, or an action fails after another one has had an effect.",
		Quick:    40000,
		Thorough: 500000,
	}, func(t *rapid.T) *tk.Case {
		g := sim.Gen{
			Max:          map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 1, sim.Projection: 1},
			Large:        200,
			MaxMessages:  6,
			NumInstances: 2,
			Times:        []int64{0, 1000, 2000},
			Schedule:     2,
			Ops:          []string{sim.Destroy, sim.End, sim.Log},
		}.Defaults()
		c := &tk.Case{App: g.App(t)}
		failing := sim.OneIn(t, 3)
		if failing {
			g.Ops = append(g.Ops, sim.Fail)
		}
		for _, typ := range []string{sim.Integration, sim.Projection} {
			if rapid.Bool().Draw(t, "enabled") {
				c.Opts = append(c.Opts, sim.Opt{Type: typ, On: true})
			}
		}

		kinds := []string{tk.Dispatch, tk.Dispatch, tk.Dispatch, tk.By, tk.By, tk.Call}
		if failing {
			kinds = append(kinds, tk.Failing)
		}
		var expects []*tk.Step
		for range sim.Count(t, 2, 8, 30) {
			s := &tk.Step{}
			n := 1
			if rapid.Bool().Draw(t, "expect") {
				expects = append(expects, s)
			} else {
				n = sim.Int(t, 1, 3)
			}
			for range n {
				a := tk.Action(t, g, c.App, kinds, 0)
				if a.K == tk.Failing {
					a.S = g.Error(t, "action")
				}
				s.Acts = append(s.Acts, a)
			}
			c.Steps = append(c.Steps, s)
		}
		c.AssignKeys()

		// Build a pool of expectations based on everything that may happen.
		everything := &tk.Act{K: tk.Dispatch}
		for _, s := range c.Steps {
			for _, a := range s.Acts {
				everything.Calls = append(everything.Calls, &tk.CallOp{M: a.M})
				everything.Calls = append(everything.Calls, a.Calls...)
			}
		}
		eg := tk.Gen{
			App:   c.App,
			Act:   everything,
			Depth: sim.Int(t, 0, 2),
			Width: 3,
			Kinds: []string{tk.Message, tk.Type, tk.OfType, tk.Match, tk.Only, tk.Satisfy},
		}
		var pool []*tk.Exp
		for i := range sim.Int(t, 1, 3) {
			e := eg.Exp(t)
			e.Shared = i + 1
			pool = append(pool, e)
		}
		for _, s := range expects {
			s.E = sim.Pick(t, pool)
		}
		return c
	}, func(cp **tk.Case, st *prop.Stats) error {
		c := *cp
		r := tk.Begin(c)
		verdicts := map[int]map[bool]bool{}

		for i, s := range c.Steps {
			start := len(r.Ops)
			before := r.World.Len()
			var given [][]fact.Fact
			r.Builder.OnSatisfy = func(e *tk.Exp, t *testkit.SatisfyT) {
				given = append(given, t.Facts)
				if e.V == tk.Fail {
					t.Fail()
				}
			}
			res := r.Step(i, s)
			trace := r.World.Trace()[before:]

			if res.Panicked {
				return fmt.Errorf("step %d panicked: %v", i, res.Panic)
			}
			for _, e := range trace {
				if e.Op == tk.Outside {
					return fmt.Errorf("step %d: something happens outside of any action: %s", i, e)
				}
			}

			var facts []fact.Fact
			for _, e := range trace {
				if e.Kind == sim.Fact {
					facts = append(facts, e.Fact)
				}
			}
			for _, g := range given {
				if !slices.EqualFunc(g, facts, sameFact) {
					return fmt.Errorf("step %d: a user-defined check is given %d facts, its action caused %d", i, len(g), len(facts))
				}
			}

			failed, err := p19Actions(c, r, i, s, start, trace, res)
			if err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if failed {
				st.Class("action fails")
				st.NonTrivial(i > 0)
				continue
			}

			if n := len(res.Of("Fatal")); n > 0 {
				return fmt.Errorf("step %d: the test fails fatally, even though no action failed: %s", i, res.Of("Fatal")[0].Text)
			}
			reports := p19Reports(res)
			if s.E == nil {
				if len(reports) != 0 || res.Stopped {
					return fmt.Errorf("step %d: a preparation has %d reports, stopped=%t", i, len(reports), res.Stopped)
				}
				continue
			}

			if len(reports) != 1 {
				return fmt.Errorf("step %d: an expectation has %d reports", i, len(reports))
			}
			want := s.E.Holds(tk.Observed{Messages: r.Produced(i)})
			if n := len(res.Of("FailNow")); n > 1 || (n == 1) == want {
				return fmt.Errorf("step %d: the expectation holds=%t, but the test is failed %d times", i, want, n)
			}
			if res.Stopped == want {
				return fmt.Errorf("step %d: the expectation holds=%t, but the test is stopped=%t", i, want, res.Stopped)
			}
			if !want && res.Calls[len(res.Calls)-1].Method != "FailNow" {
				return fmt.Errorf("step %d: the test is failed before the report is made", i)
			}
			st.Class(fmt.Sprintf("verdict=%t", want))
			v := verdicts[s.E.Shared]
			if v == nil {
				v = map[bool]bool{}
				verdicts[s.E.Shared] = v
			}
			v[want] = true
			if len(v) == 2 {
				st.Class("expectation passes and fails")
				st.NonTrivial(true)
			}
		}

		m := r.Model()
		trace := r.World.Trace()
		s := &prop.Stats{}
		for _, err := range []error{
			checkErrors(m, trace, r.Results, s),
			checkEnvelopes(m, trace, s),
			checkAggregates(m, trace, s),
			checkProcesses(m, trace, nil, s),
			checkTimeouts(m, trace, s),
		} {
			if err != nil {
				return fmt.Errorf("actions, as operations on the engine: %w", err)
			}
		}
		return nil
	})
}

// p19Actions checks that the actions of a step are performed up to the first
// that fails, and how its failure is reported.
func p19Actions(
	c *tk.Case,
	r *tk.Run,
	i int,
	s *tk.Step,
	start int,
	trace []*sim.Entry,
	res tk.StepResult,
) (failed bool, err error) {
	// Find the operations that must have failed.
	fails := map[int][]string{}
	for _, e := range trace {
		if e.Kind == sim.Return && e.Err != nil {
			fails[e.Op] = append(fails[e.Op], e.Err.Error())
		}
	}

	next := start
	for j, a := range s.Acts {
		var ops []int
		ops = append(ops, r.Acted[[2]int{i, j}]...)

		if failed {
			if len(ops) != 0 {
				return true, fmt.Errorf("action %d is performed after an earlier one failed", j)
			}
			continue
		}

		expect := 1
		switch a.K {
		case tk.Call:
			expect = len(a.Calls)
		case tk.Failing:
			expect = 0
		}
		if len(ops) != expect {
			return false, fmt.Errorf("action %d performs %d operations, expected %d", j, len(ops), expect)
		}
		for _, n := range ops {
			if n != next {
				return false, fmt.Errorf("action %d is performed out of order", j)
			}
			next++
		}

		var texts []string
		switch a.K {
		case tk.Failing:
			texts = []string{a.S}
		case tk.Call:
			for _, n := range ops {
				if (r.Results[n].Err != nil) != (len(fails[n]) > 0) {
					return false, fmt.Errorf("executing a command returned %v, expected errors %v", r.Results[n].Err, fails[n])
				}
			}
		default:
			texts = fails[ops[0]]
		}
		if len(texts) == 0 {
			continue
		}

		failed = true
		fatal := res.Of("Fatal")
		if len(fatal) != 1 || !res.Stopped {
			return true, fmt.Errorf("action %d fails, but the test has %d fatal failures, stopped=%t", j, len(fatal), res.Stopped)
		}
		for _, t := range texts {
			if !strings.Contains(fatal[0].Text, t) {
				return true, fmt.Errorf("action %d fails with %q, but the test is failed with %q", j, t, fatal[0].Text)
			}
		}
		if len(fatal[0].Args) != 1 {
			return true, fmt.Errorf("the test is failed with %d values", len(fatal[0].Args))
		}
		ferr, ok := fatal[0].Args[0].(error)
		if !ok {
			return true, fmt.Errorf("the test is failed with %T, which is not an error", fatal[0].Args[0])
		}
		if a.K != tk.Failing {
			r.Results[ops[0]].Err = ferr
		}
		if n := len(p19Reports(res)); n != 0 {
			return true, fmt.Errorf("%d reports are made, even though action %d fails", n, j)
		}
		if len(res.Of("FailNow")) != 0 {
			return true, fmt.Errorf("action %d fails, and the test is failed twice", j)
		}
	}

	return failed, nil
}

func p19Reports(res tk.StepResult) []tk.TCall {
	var reports []tk.TCall
	for _, c := range res.Of("Log") {
		if strings.HasPrefix(c.Text, reportHeader) {
			reports = append(reports, c)
		}
	}
	return reports
}

// reportHeader is the start of a log message that is a report.
const reportHeader = "--- TEST REPORT ---"
