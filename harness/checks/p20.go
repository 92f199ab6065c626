package checks

import (
	"fmt"
	"strings"

	"github.com/dogmatiq/enginekit/message"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

// p20Omit removes an iteration of some repeated expectation within e.
func p20Omit(t *rapid.T, e *tk.Exp) {
	var repeats []*tk.Exp
	e.Walk(func(e *tk.Exp) {
		if e.K == tk.Repeat {
			repeats = append(repeats, e)
		}
	})
	if len(repeats) == 0 {
		x := *e
		*e = tk.Exp{K: tk.Repeat, S: "<repeat>", N: sim.Int(t, 1, 5), C: []*tk.Exp{&x}}
		repeats = append(repeats, e)
	}
	r := sim.Pick(t, repeats)
	if len(r.C) < r.N {
		r.C = append(r.C, &tk.Exp{K: tk.Missing})
	} else {
		r.C[sim.Int(t, 0, len(r.C)-1)] = &tk.Exp{K: tk.Missing}
	}
}

func init() {
	prop.Register("P20", prop.Options{
		Rule: "A case is an application and a test of 1 to 4 steps, each an action with a tree of expectations about any message types at all. " +
			"It is non-trivial if some tree of at least 2 leaves is refused because of one of them.",
		Quick:    100000,
		Thorough: 1000000,
	}, func(t *rapid.T) *tk.Case {
		g := sim.Gen{
			Max:          map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 2, sim.Projection: 2},
			Disabled:     true,
			MaxMessages:  4,
			NumInstances: 2,
			Times:        []int64{0, 1000, 2000},
		}.Defaults()
		c := &tk.Case{App: g.App(t)}
		for range sim.Int(t, 1, 4) {
			a := tk.Action(t, g, c.App, []string{tk.Dispatch, tk.Dispatch, tk.By, tk.To, tk.Call, tk.Call}, 0)
			c.Steps = append(c.Steps, &tk.Step{Acts: []*tk.Act{a}})
		}
		c.AssignKeys()
		for _, s := range c.Steps {
			eg := tk.Gen{
				App:        c.App,
				Act:        s.Acts[0],
				Depth:      sim.Int(t, 0, 3),
				Width:      3,
				Kinds:      []string{tk.Message, tk.Type, tk.OfType, tk.Match, tk.Only, tk.Fixed, tk.Satisfy},
				Impossible: sim.OneIn(t, 3),
			}
			s.E = eg.Exp(t)
			if !eg.Impossible && rapid.Bool().Draw(t, "one") {
				// Use a single impossible leaf.
				var leaves []*tk.Exp
				s.E.Walk(func(e *tk.Exp) {
					if !e.IsComposite() {
						leaves = append(leaves, e)
					}
				})
				switch {
				case sim.OneIn(t, 6):
					*sim.Pick(t, leaves) = tk.Exp{K: tk.Fixed, V: tk.Refuse, S: "<refused>"}
					continue
				case sim.OneIn(t, 6):
					p20Omit(t, s.E)
					continue
				}
				eg.Impossible = true
				eg.Kinds = []string{tk.Message, tk.Type, tk.OfType, tk.Match, tk.Only}
				*sim.Pick(t, leaves) = *eg.Leaf(t)
			}
		}
		return c
	}, func(cp **tk.Case, st *prop.Stats) error {
		c := *cp
		r := tk.Begin(c)
		clock := int64(0)

		for i, s := range c.Steps {
			act := s.Acts[0]
			if act.K == tk.To && act.D < clock {
				act.D = clock
			}

			var impossible []string
			leaves, missing, refused := 0, false, false
			for e := range countUses(s.E, 1, map[*tk.Exp]int{}) {
				if e.IsComposite() {
					continue
				}
				leaves++
				if t := e.TypeName(); e.IsMessage() && t != "" && !tk.Possible(c.App, t, act) {
					impossible = append(impossible, t)
				}
				if e.K == tk.Missing {
					missing = true
				}
				if e.V == tk.Refuse {
					refused = true
				}
			}

			before, called := r.World.Len(), r.Called
			res := r.Step(i, s)
			trace := r.World.Trace()[before:]
			if res.Panicked {
				return fmt.Errorf("step %d panicked: %v", i, res.Panic)
			}
			fatal := res.Of("Fatal")

			if len(impossible) == 0 && !missing && !refused {
				if len(fatal) != 0 {
					return fmt.Errorf("step %d: an expectation that may be met is refused: %s", i, fatal[0].Text)
				}
				if act.K != tk.Call && len(trace) == 0 {
					return fmt.Errorf("step %d: the action is not performed", i)
				}
				if act.K == tk.Call && r.Called != called+len(act.Calls) {
					return fmt.Errorf("step %d: the function is not called", i)
				}
				if len(p19Reports(res)) != 1 {
					return fmt.Errorf("step %d: there are %d reports", i, len(p19Reports(res)))
				}
				clock = r.Clock
				st.Class("accepted for " + act.K)
				continue
			}

			// Time is not advanced, so what comes next is performed at the
			// same time as before.
			r.Clock = clock

			if len(fatal) != 1 || !res.Stopped {
				return fmt.Errorf("step %d: an expectation about %v, which can never be met, is accepted", i, impossible)
			}
			named := false
			for _, t := range impossible {
				n := message.TypeOf((&sim.Msg{T: t}).Message()).String()
				named = named || strings.Contains(fatal[0].Text, n)
			}
			st.ClassIf(missing, "refused because of a missing iteration")
			st.ClassIf(refused, "refused by the user's expectation")
			named = named || missing || refused && strings.Contains(fatal[0].Text, "<refused>")
			if !named {
				return fmt.Errorf("step %d: the failure does not name any of the types %v: %s", i, impossible, fatal[0].Text)
			}
			if len(trace) != 0 || r.Called != called {
				return fmt.Errorf("step %d: the action is performed, even though the expectation can never be met", i)
			}
			if len(p19Reports(res)) != 0 || len(res.Of("FailNow")) != 0 {
				return fmt.Errorf("step %d: there is a report about an expectation that can never be met", i)
			}
			st.Class(fmt.Sprintf("refused for %s", act.K))
			st.NonTrivial(leaves >= 2)
			st.ClassIf(len(impossible) > 0 && tk.Uses(c.App, impossible[0]), "refused because type is only consumed")
		}

		// Everything that was performed, is performed at the right time.
		for _, e := range r.World.Trace() {
			if t, ok := factTime(e); ok && !t.Equal(sim.At(r.Ops[e.Op].Now)) {
				return fmt.Errorf("an action is performed at %s, after an earlier one was refused", t)
			}
		}
		return nil
	})
}
