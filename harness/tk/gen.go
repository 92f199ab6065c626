package tk

import (
	"encoding/json"
	"fmt"
	"slices"

	"pgregory.net/rapid"
	"verif/harness/sim"
)

// Clone returns a deep copy of m.
func Clone(m *sim.Msg) *sim.Msg {
	data, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	var x *sim.Msg
	if err := json.Unmarshal(data, &x); err != nil {
		panic(err)
	}
	return x
}

// Uses returns true if the application uses the message type.
func Uses(a *sim.App, t string) bool {
	return len(a.ConsumersOf(t)) > 0 || len(a.ProducersOf(t)) > 0
}

// Possible returns true if an expectation about messages of type t is
// acceptable to the given action.
func Possible(a *sim.App, t string, act *Act) bool {
	if act.K == Call || act.Match {
		return Uses(a, t)
	}
	return len(a.ProducersOf(t)) > 0
}

// Gen generates expectations.
type Gen struct {
	App *sim.App

	// Act is the action to which the expectation applies.
	Act *Act

	// Kinds are the kinds of expectation.
	Kinds []string

	// Impossible allows expectations that can not be met.
	Impossible bool

	// Depth and Width limit the size of trees.
	Depth, Width int

	// N counts expectations.
	N int
}

// Messages returns the messages of the action, other than timeouts.
func (a *Act) Messages() []*sim.Msg {
	var res []*sim.Msg
	add := func(m *sim.Msg) {
		if m.T[0] != 'T' {
			res = append(res, m)
		}
	}
	a.M.Walk(add)
	for _, c := range a.Calls {
		c.M.Walk(add)
	}
	for _, p := range a.Parts {
		res = append(res, p.Messages()...)
	}
	return res
}

func (g *Gen) types(kind byte) []string {
	var res []string
	for _, t := range append(slices.Clone(sim.Commands), sim.Events...) {
		if kind != 0 && t[0] != kind {
			continue
		}
		if g.Impossible || Possible(g.App, t, g.Act) {
			res = append(res, t)
		}
	}
	return res
}

// Exp draws an expectation.
func (g *Gen) Exp(t *rapid.T) *Exp {
	return g.exp(t, g.Depth)
}

func (g *Gen) exp(t *rapid.T, depth int) *Exp {
	if depth > 0 && !sim.OneIn(t, 3) {
		return g.composite(t, depth)
	}
	return g.Leaf(t)
}

func (g *Gen) composite(t *rapid.T, depth int) *Exp {
	g.N++
	e := &Exp{K: sim.Pick(t, []string{All, Any, None, Not, Repeat})}
	n := sim.Int(t, 1, g.Width)
	limit := g.Width
	if sim.OneIn(t, 60) {
		// Use many children, but not many levels.
		n = sim.Int(t, g.Width, 20)
		limit = 80
		depth = 1
	}
	switch e.K {
	case Not:
		n = 1
	case Repeat:
		e.N = sim.Int(t, 1, limit)
		e.S = fmt.Sprintf("repeat <%d>", g.N)
		n = min(n, e.N)
	}
	for range n {
		e.C = append(e.C, g.exp(t, depth-1))
	}
	return e
}

// Leaf draws an expectation without children.
func (g *Gen) Leaf(t *rapid.T) *Exp {
	g.N++
	e := &Exp{K: sim.Pick(t, g.Kinds)}

	switch e.K {
	case Satisfy:
		e.V = sim.Pick(t, []string{Pass, Fail})
		e.S = fmt.Sprintf("satisfy <%d>", g.N)
		return e
	case Fixed:
		e.V = sim.Pick(t, []string{Pass, Fail, PassLate, FailLate})
		e.S = fmt.Sprintf("leaf <%d>", g.N)
		return e
	}

	types := g.types(0)

	// Predicates may use an interface as the type of message.
	if e.K == Match || e.K == Only {
		e.P = Predicate(t)
		if len(types) == 0 || sim.OneIn(t, 3) {
			e.T = sim.Pick(t, []string{"Command", "AnyCommand", "Event", "AnyEvent"})
			return e
		}
	}

	if len(types) == 0 {
		e.K = Match
		e.P = Predicate(t)
		e.T = sim.Pick(t, []string{"Command", "AnyCommand", "Event", "AnyEvent"})
		return e
	}

	// Usually, use a message that might be produced.
	var likely []*sim.Msg
	for _, m := range g.Act.Messages() {
		if slices.Contains(types, m.T) {
			likely = append(likely, m)
		}
	}

	m := &sim.Msg{T: sim.Pick(t, types), K: sim.Int(t, 1, 4), I: "a"}
	if len(likely) > 0 && !sim.OneIn(t, 5) {
		if n := len(likely); n > 20 && rapid.Bool().Draw(t, "late") {
			// Use one of those that are likely to be produced last.
			likely = likely[n-10:]
		}
		m = Clone(sim.Pick(t, likely))
		if sim.OneIn(t, 3) {
			mutate(t, m, types)
		}
	}

	if e.K == Message {
		e.M = m
	} else {
		e.T = m.T
	}

	return e
}

// mutate changes a message.
func mutate(t *rapid.T, m *sim.Msg, types []string) {
	switch sim.Int(t, 0, 5) {
	case 0:
		m.V += "x"
	case 1:
		m.I += "'"
	case 2:
		m.K += sim.Pick(t, []int{1, 2, 100})
	case 3:
		m.T = sim.Pick(t, types)
	case 4:
		m.Do = nil
	case 5:
		n := 0
		m.Walk(func(x *sim.Msg) { n++ })
		n = sim.Int(t, 1, n)
		m.Walk(func(x *sim.Msg) {
			n--
			if n == 0 {
				x.V += "y"
			}
		})
	}
}

// Predicate draws the outcomes of a predicate function.
func Predicate(t *rapid.T) []string {
	var res []string
	for range sim.Int(t, 1, 4) {
		res = append(res, sim.Pick(t, []string{PredNil, PredNil, PredIgnore, "<bad>", "<worse>"}))
	}
	return res
}

// Action draws an action.
func Action(t *rapid.T, g *sim.Gen, a *sim.App, kinds []string, clock int64) *Act {
	act := &Act{K: sim.Pick(t, kinds)}

	consumed := a.Consumed()
	commands := slices.DeleteFunc(slices.Clone(consumed), func(s string) bool { return s[0] != 'C' })
	if act.K == Dispatch && len(consumed) == 0 {
		act.K = By
	}

	switch act.K {
	case Dispatch:
		if sim.OneIn(t, 3) {
			act.M = g.Timer(t, a)
		}
		if act.M == nil {
			act.M = g.Tree(t, a, g.RootTypes(t, a))
		}
	case By:
		act.D = sim.Pick(t, g.Times)
	case To:
		act.D = clock + sim.Pick(t, g.Times)
	case Call:
		if len(commands) > 0 {
			for range sim.Int(t, 0, 3) {
				act.Calls = append(act.Calls, &CallOp{K: "execute", M: g.Tree(t, a, commands)})
			}
			if len(act.Calls) > 0 && sim.OneIn(t, 40) {
				act.burst(sim.Int(t, 20, 150))
			}
		}
	}
	return act
}

// burst repeats the calls of the action until they involve about n messages.
func (a *Act) burst(n int) {
	size := 0
	for _, c := range a.Calls {
		size += c.M.Size()
	}
	calls := a.Calls
	for x := size; x < n; x += size {
		for _, c := range calls {
			a.Calls = append(a.Calls, &CallOp{K: c.K, M: Clone(c.M)})
		}
	}
}

// Alike changes the keys of messages without scripts to be within a small
// range, so that some messages are identical.
func Alike(t *rapid.T, roots ...*sim.Msg) {
	for _, r := range roots {
		r.Walk(func(m *sim.Msg) {
			if len(m.Do) == 0 {
				m.K = sim.Int(t, 1, 3)
				m.I = "a"
			}
		})
	}
}

// AssignKeys assigns unique keys to the messages of all actions.
func (c *Case) AssignKeys() {
	next := 0
	for _, s := range c.Steps {
		for _, a := range s.Acts {
			sim.AssignKeys(&next, a.M)
			for _, x := range a.Calls {
				sim.AssignKeys(&next, x.M)
			}
			for _, p := range a.Parts {
				sim.AssignKeys(&next, p.M)
			}
		}
	}
}
