package checks

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

func init() {
	prop.Register("P17", prop.Options{
		Rule: "A case is an application and a test of 1 to 5 steps, each an action with one expectation about messages. " +
			"Targets are mostly derived from messages that the action may cause, some slightly changed. " +
			"It is non-trivial if some expectation is judged on at least two messages of its kind.",
		Quick:    60000,
		Thorough: 1000000,
	}, func(t *rapid.T) *tk.Case {
		g := sim.Gen{
			Max:          map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 2, sim.Projection: 1},
			Large:        80,
			MaxMessages:  12,
			NumInstances: 2,
			Times:        []int64{0, 1000, 2000},
			Schedule:     3,
			Ops:          []string{sim.End, sim.RouteIgnore},
		}.Defaults()
		c := &tk.Case{App: g.App(t)}
		c.Comparator = sim.Pick(t, []string{
			tk.CompareDefault, tk.CompareDefault, tk.CompareDefault, tk.CompareNil,
			tk.CompareKey, tk.CompareAlways, tk.CompareNever, tk.CompareOrder,
		})
		if !sim.OneIn(t, 3) {
			c.Opts = append(c.Opts, sim.Opt{Type: sim.Integration, On: true})
		}
		for range sim.Count(t, 1, 5, 20) {
			a := tk.Action(t, g, c.App, []string{tk.Dispatch, tk.Dispatch, tk.Dispatch, tk.By, tk.By, tk.Call, tk.Call}, 0)
			c.Steps = append(c.Steps, &tk.Step{Acts: []*tk.Act{a}})
		}
		c.AssignKeys()
		alike := rapid.Bool().Draw(t, "alike")
		for _, s := range c.Steps {
			a := s.Acts[0]
			if alike {
				tk.Alike(t, a.M)
				for _, x := range a.Calls {
					tk.Alike(t, x.M)
				}
			}
			// Time-based actions cause messages that were scheduled before.
			like := a
			if a.K == tk.By {
				a.D = sim.Pick(t, []int64{0, 1000, 2000, 3600000})
				like = sim.Pick(t, c.Steps).Acts[0]
				like = &tk.Act{K: a.K, M: like.M, Calls: like.Calls}
			}
			eg := tk.Gen{
				App:   c.App,
				Act:   like,
				Kinds: []string{tk.Message, tk.Message, tk.Type, tk.OfType, tk.Match, tk.Match, tk.Only, tk.Only},
			}
			s.E = eg.Leaf(t)
		}
		return c
	}, func(cp **tk.Case, st *prop.Stats) error {
		c := *cp
		r := tk.Begin(c)
		for i, s := range c.Steps {
			res := r.Step(i, s)
			if res.Panicked {
				return fmt.Errorf("step %d panicked: %v", i, res.Panic)
			}
			if f := res.Of("Fatal"); len(f) > 0 {
				return fmt.Errorf("step %d failed fatally: %s", i, f[0].Text)
			}
			for _, r := range r.Results {
				if r.Err != nil {
					return fmt.Errorf("step %d: executing a command failed: %s", i, r.Err)
				}
			}

			o := tk.Observed{Messages: r.Produced(i), Comparator: c.Comparator}
			want := s.E.Holds(o)
			failed := len(res.Of("FailNow")) > 0
			if failed == want {
				return fmt.Errorf(
					"step %d: expectation %s, but it should not, given %s",
					i,
					map[bool]string{true: "fails", false: "passes"}[failed],
					describeMessages(o.Messages),
				)
			}

			n := 0
			for _, m := range o.Messages {
				if m.T[0] == s.E.Kind() {
					n++
				}
			}
			st.NonTrivial(n >= 2)
			st.Class(fmt.Sprintf("%s of %s passes=%t", s.E.K, s.Acts[0].K, want))
			st.ClassIf(s.E.Interface(), "interface type")
			st.ClassIf(n > 50, fmt.Sprintf("more than 50 messages passes=%t", want))
			st.ClassIf(c.Comparator != "", "custom comparator")
		}
		return nil
	})
}

func describeMessages(ms []*sim.Msg) string {
	var res []string
	for _, m := range ms {
		res = append(res, fmt.Sprintf("%s#%d", m.T, m.K))
	}
	return "[" + strings.Join(res, " ") + "]"
}
