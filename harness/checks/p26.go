package checks

import (
	"fmt"
	"reflect"
	"slices"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

type p26Case struct {
	A, B *tk.RichMsg

	// Others are also recorded.
	Others []*tk.RichMsg `json:",omitempty"`

	// Custom are the results of a custom comparator, if any.
	Custom []bool `json:",omitempty"`

	// Within is the composites that the expectation is part of, from the
	// innermost to the outermost.
	Within []string `json:",omitempty"`
}

// within returns an expectation that consists of x, and whether it passes given
// that x does if ok is true.
func within(kind string, x testkit.Expectation, ok bool) (testkit.Expectation, bool) {
	switch kind {
	case "all":
		return testkit.AllOf(x, x), ok
	case "any":
		return testkit.AnyOf(x, x), ok
	case "none":
		return testkit.NoneOf(x), !ok
	case "repeat":
		return testkit.ToRepeatedly("<criteria>", 2, func(int) testkit.Expectation { return x }), ok
	default:
		panic("unknown composite: " + kind)
	}
}

func init() {
	prop.Register("P26", prop.Options{
		Rule: "A case is a pair of structured or protocol buffers messages, which usually differ in at most one place, further events that are recorded alongside, and the results of a custom comparator, if any, for an expectation that is part of up to two composites. " +
			"It is non-trivial if the messages have the same type and are not both empty.",
		Quick:    180000,
		Thorough: 2000000,
	}, func(t *rapid.T) *p26Case {
		draw := tk.DrawRich
		if sim.OneIn(t, 3) {
			draw = tk.DrawPlain
		}
		c := &p26Case{A: draw(t)}
		if sim.OneIn(t, 6) {
			c.B = draw(t)
		} else {
			c.B = c.A
			for range sim.Int(t, 0, 2) {
				c.B = c.B.Vary(t)
			}
		}
		for range sim.Int(t, 0, 2) {
			c.Others = append(c.Others, c.A.Vary(t))
		}
		if sim.OneIn(t, 3) {
			c.Custom = rapid.SliceOfN(rapid.Bool(), 1, 3).Draw(t, "custom")
		}
		if sim.OneIn(t, 3) {
			for range sim.Int(t, 1, 2) {
				c.Within = append(c.Within, sim.Pick(t, []string{"all", "any", "none", "repeat"}))
			}
		}
		return c
	}, func(cp **p26Case, st *prop.Stats) error {
		c := *cp
		a, b := c.A.Build(), c.B.Build()

		want := c.A.Equal(c.B)
		if got := testkit.DefaultMessageComparator(a, b); got != want {
			return fmt.Errorf("the messages are equal=%t, expected %t: %+v and %+v", got, want, a, b)
		}
		if got := testkit.DefaultMessageComparator(b, a); got != want {
			return fmt.Errorf("the messages are equal=%t the other way around, expected %t: %+v and %+v", got, want, a, b)
		}
		for _, m := range []*tk.RichMsg{c.A, c.B} {
			if m.K == "proto" || !m.C.Irreflexive() {
				x := m.Build()
				if !testkit.DefaultMessageComparator(x, x) {
					return fmt.Errorf("a message does not equal itself: %+v", x)
				}
			}
		}

		// Expectations use the comparator.
		var (
			t        = &tk.T{}
			recorded []dogma.Event
			specs    = append([]*tk.RichMsg{c.A}, c.Others...)
			opts     []testkit.TestOption
			given    [][2]dogma.Message
		)
		for _, s := range specs {
			recorded = append(recorded, s.Build())
		}

		var candidates []dogma.Event
		for _, m := range recorded {
			if reflect.TypeOf(m) == reflect.TypeOf(b) {
				candidates = append(candidates, m)
			}
		}
		index := func(m dogma.Message) int {
			return slices.IndexFunc(candidates, func(x dogma.Event) bool { return identical(x, m) })
		}

		match := false
		for i, s := range specs {
			if c.Custom == nil {
				match = match || s.Equal(c.B)
			} else if n := index(recorded[i]); n >= 0 {
				match = match || c.Custom[n%len(c.Custom)]
			}
		}

		if c.Custom != nil {
			st.Class("custom comparator")
			opts = append(opts, testkit.WithMessageComparator(func(a, b dogma.Message) bool {
				given = append(given, [2]dogma.Message{a, b})
				n := index(a)
				return n >= 0 && c.Custom[n%len(c.Custom)]
			}))
		}

		var (
			expect testkit.Expectation = testkit.ToRecordEvent(b)
			pass                       = match
		)
		for _, k := range c.Within {
			expect, pass = within(k, expect, pass)
			st.Class("within " + k)
		}

		test := testkit.Begin(t, tk.RichApp{}, opts...).EnableHandlers("rich-handler")
		res := sim.Capture(func() error {
			test.Expect(
				testkit.ExecuteCommand(tk.NewPerform(recorded...)),
				expect,
			)
			return nil
		})
		if res.Panicked {
			if _, ok := res.Panic.(tk.Abort); !ok {
				return fmt.Errorf("the test panicked: %v", res.Panic)
			}
		}
		if t.Failed() == pass {
			return fmt.Errorf("a matching event is recorded=%t, but the test is failed=%t (custom comparator: %v, composites: %v)", match, t.Failed(), c.Custom, c.Within)
		}

		for _, g := range given {
			if index(g[0]) < 0 || !identical(g[1], b) {
				return fmt.Errorf("the custom comparator is not called with the actual and the expected message")
			}
		}

		st.Class(fmt.Sprintf("%s equal=%t", c.A.K, want))
		st.NonTrivial(c.A.K == c.B.K && (!c.A.Equal(&tk.RichMsg{K: c.A.K, C: &tk.Spec{}, P: &tk.ProtoSpec{}}) || !want))
		return nil
	})
}

// identical returns true if a and b are the same value. Messages built from
// the same description differ in the addresses of what they contain.
func identical(a, b dogma.Message) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	switch a := a.(type) {
	case *tk.RichPointer:
		return a == b.(*tk.RichPointer)
	case tk.ProtoEvent:
		return a == b.(tk.ProtoEvent)
	}
	return fmt.Sprintf("%+v", a) == fmt.Sprintf("%+v", b)
}
