package checks

import (
	"fmt"
	"regexp"

	"github.com/dogmatiq/testkit"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

type p25Case struct {
	App   *sim.App
	Opts  []sim.Opt `json:",omitempty"`
	Steps []*p25Step
}

type p25Step struct {
	Switches []*p25Switch `json:",omitempty"`
	Act      *tk.Act
}

type p25Switch struct {
	On    bool `json:",omitempty"`
	Like  bool `json:",omitempty"`
	Args  []string
	Chain bool `json:",omitempty"` // give the arguments in separate, chained calls
}

func init() {
	prop.Register("P25", prop.Options{
		Rule: "A case is an application with arbitrary handler names, some of whose handlers are disabled by configuration, and a test of several actions with sequences of name and pattern switches before each. " +
			"It is non-trivial if a pattern that matches some but not all of the handlers is used and the same handler is switched more than once.",
		Quick:    150000,
		Thorough: 900000,
	}, p25Draw, func(cp **p25Case, st *prop.Stats) error {
		return (*cp).judge(st)
	})
}

var p25Names = []string{
	"a", "ab", "abc", "b", "a.b", "a+b", "(x)", "x", "order", "Order", "order-2", "preorder", "^a$", "[z]", "é", "日本", "*", "$", "\\d", "1", "11", "<name>", "%s", "a|b",
}

// p25DrawNames draws the names of n handlers.
func p25DrawNames(t *rapid.T, n int) []string {
	names := rapid.Permutation(p25Names).Draw(t, "names")
	for i := len(names); i < n; i++ {
		names = append(names, fmt.Sprintf("handler-%d", i))
	}
	return names[:n]
}

func p25Draw(t *rapid.T) *p25Case {
	g := sim.Gen{
		Max:          map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 2, sim.Projection: 3},
		Disabled:     true,
		MaxMessages:  6,
		NumInstances: 2,
		Times:        []int64{0, 1000, 2000},
		Schedule:     2,
		Ops:          []string{sim.End},
		Names: func(t *rapid.T, n int) []string {
			return p25DrawNames(t, n)
		},
	}.Defaults()
	c := &p25Case{App: g.App(t)}
	if rapid.Bool().Draw(t, "options") {
		c.Opts = g.Opts(t, c.App, 3)
	}

	var names []string
	for _, h := range c.App.Handlers {
		names = append(names, h.Name)
	}

	for range sim.Count(t, 1, 5, 20) {
		s := &p25Step{}
		for range sim.Int(t, 0, 3) {
			w := &p25Switch{
				On:    rapid.Bool().Draw(t, "on"),
				Like:  rapid.Bool().Draw(t, "like"),
				Chain: rapid.Bool().Draw(t, "chain"),
			}
			for range sim.Count(t, 0, 3, 12) {
				n := sim.Pick(t, names)
				if !w.Like {
					w.Args = append(w.Args, n)
					continue
				}
				switch sim.Int(t, 0, 9) {
				case 0:
					n = ".*"
				case 1:
					n = sim.Pick(t, []string{"a", "^a", "b$", "^.$", "order", "(?i)ORDER", "[a-z]+", "", "\\d+"})
				case 2:
					n = regexp.QuoteMeta(n[:1])
					if _, err := regexp.Compile(n); err != nil {
						n = "."
					}
				case 3:
					n = "^(" + regexp.QuoteMeta(n) + "|" + regexp.QuoteMeta(sim.Pick(t, names)) + ")$"
				case 4:
					n = "zzz"
				case 5:
					if sim.OneIn(t, 3) {
						n = "("
					} else {
						n = "."
					}
				default:
					n = "^" + regexp.QuoteMeta(n) + "$"
				}
				w.Args = append(w.Args, n)
			}
			if !w.Like && sim.OneIn(t, 6) {
				// Name a handler that does not exist.
				w.Args = []string{sim.Pick(t, []string{"unknown", "", "A", "aggregate"})}
			}
			s.Switches = append(s.Switches, w)
		}
		s.Act = tk.Action(t, g, c.App, []string{tk.Dispatch, tk.Dispatch, tk.Dispatch, tk.By, tk.Call}, 0)
		c.Steps = append(c.Steps, s)
	}

	next := 0
	for _, s := range c.Steps {
		sim.AssignKeys(&next, s.Act.M)
		for _, x := range s.Act.Calls {
			sim.AssignKeys(&next, x.M)
		}
	}
	return c
}

func (c *p25Case) judge(st *prop.Stats) error {
	r := tk.Begin(&tk.Case{App: c.App, Opts: c.Opts})
	var (
		switched = map[string]int{}
		partial  bool
	)

	for i, s := range c.Steps {
		for j, w := range s.Switches {
			// Determine the expected outcome of each of the calls.
			groups := [][]string{w.Args}
			if w.Chain {
				groups = nil
				for _, a := range w.Args {
					groups = append(groups, []string{a})
				}
			}

			for _, args := range groups {
				var (
					names  []string
					refuse bool
				)
				for _, a := range args {
					if w.Like {
						var matched []string
						re, err := regexp.Compile(a)
						for _, h := range c.App.Handlers {
							if err == nil && !h.Disabled && re.MatchString(h.Name) {
								matched = append(matched, h.Name)
							}
							st.ClassIf(err == nil && h.Disabled && re.MatchString(h.Name), "pattern matches handler disabled by configuration")
						}
						if len(matched) == 0 {
							refuse = true
						}
						partial = partial || len(matched) > 0 && len(matched) < len(c.App.Handlers)
						names = append(names, matched...)
						continue
					}
					h := c.App.Handler(a)
					if h == nil || h.Disabled && w.On {
						refuse = true
						st.ClassIf(h != nil, "attempt to enable handler disabled by configuration")
						break
					}
					names = append(names, a)
				}

				before := r.World.Len()
				res := sim.Capture(func() error {
					var t *testkit.Test
					switch {
					case w.Like && w.On:
						t = r.Test.EnableHandlersLike(args...)
					case w.Like:
						t = r.Test.DisableHandlersLike(args...)
					case w.On:
						t = r.Test.EnableHandlers(args...)
					default:
						t = r.Test.DisableHandlers(args...)
					}
					if t != r.Test {
						return fmt.Errorf("a different test is returned")
					}
					return nil
				})
				if res.Err != nil {
					return fmt.Errorf("step %d, switch %d: %w", i, j, res.Err)
				}
				if res.Panicked != refuse {
					return fmt.Errorf("step %d, switch %d (%+v): panicked=%t (%v), expected %t", i, j, *w, res.Panicked, res.Panic, refuse)
				}
				if r.World.Len() != before {
					return fmt.Errorf("step %d, switch %d: switching handlers causes something to happen", i, j)
				}
				if refuse {
					st.Class(fmt.Sprintf("refused, like=%t", w.Like))
					st.ClassIf(w.Like && len(names) > 0, "refused due to one of several patterns")
					if w.Like {
						continue
					}
					// It is not specified whether handlers named before the
					// one that is refused are affected, so settle that.
					for _, n := range names {
						r.Test.DisableHandlers(n)
						r.Opts = append(r.Opts, sim.Opt{Name: n})
					}
					continue
				}
				for _, n := range names {
					r.Opts = append(r.Opts, sim.Opt{Name: n, On: w.On})
					switched[n]++
				}
			}
		}

		res := r.Step(i, &tk.Step{Acts: []*tk.Act{s.Act}})
		if res.Panicked || res.Stopped {
			return fmt.Errorf("step %d failed: %v %v", i, res.Panic, res.Calls)
		}
	}

	twice := false
	for _, n := range switched {
		twice = twice || n > 1
	}
	st.NonTrivial(partial && twice)

	if err := checkSkips(r.Model(), r.World.Trace(), &prop.Stats{}); err != nil {
		return err
	}
	return checkDelivery(r.Model(), r.World.Trace(), st)
}
