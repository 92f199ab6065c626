package checks

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

type p12Case struct {
	App     *sim.App
	Compact bool `json:",omitempty"`

	// Engine is a history of operations on an engine, Test is a sequence of
	// steps in a test. Only one of them is present.
	Engine []*p12Op   `json:",omitempty"`
	Test   []*p12Step `json:",omitempty"`
}

type p12Op struct {
	sim.EngineOp

	// Refuse is the reason that the operation is refused, if any.
	Refuse string `json:",omitempty"`

	// Cancelled is true if the context is cancelled beforehand.
	Cancelled bool `json:",omitempty"`
}

type p12Step struct {
	// Exactly one of these is present.
	Step *tk.Step   `json:",omitempty"`
	New  *p12New    `json:",omitempty"`
	Ref  *p12Refuse `json:",omitempty"`
}

// p12New is the construction of an action or expectation.
type p12New struct {
	K string
	M *sim.Msg `json:",omitempty"`
	N int      `json:",omitempty"`
	S string   `json:",omitempty"`
	F bool     `json:",omitempty"` // use a non-nil function
}

// p12Refuse is the use of an action that is refused.
type p12Refuse struct {
	K   string   // the reason
	M   *sim.Msg // message that is dispatched
	Via string   // "prepare", "expect", "executor", or "outside"
}

// The reasons for refusing to dispatch a message.
const (
	p12Invalid      = "invalid"
	p12Timeout      = "timeout"
	p12Unconsumed   = "unconsumed"
	p12Unrecognized = "unrecognized"
)

func init() {
	prop.Register("P12", prop.Options{
		Rule: "A case is a history of engine operations, or a test, in which refused requests are interleaved with others, which are also performed without the former for comparison. " +
			"It is non-trivial if a refused request is both preceded and followed by an operation that involves the same application.",
		Quick:    70000,
		Thorough: 800000,
		Assumptions: []string{
			"Handlers are deterministic, and each event is consumed by one handler, such that the order of events is determined.",
		},
	}, p12Draw, func(cp **p12Case, st *prop.Stats) error {
		if c := *cp; c.Test == nil {
			st.Class("engine")
			return c.judgeEngine(st)
		} else {
			st.Class("test")
			return c.judgeTest(st)
		}
	})
}

func p12Draw(t *rapid.T) *p12Case {
	g := sim.Gen{
		Max:                map[string]int{sim.Aggregate: 3, sim.Process: 1, sim.Integration: 2, sim.Projection: 2},
		MaxMessages:        8,
		Disabled:           true,
		SingleConsumer:     true,
		NumInstances:       2,
		Times:              []int64{0, 1000, 2000, 3000, 3600000, 3601000},
		Schedule:           2,
		ProjectionOutcomes: true,
		Ops:                []string{sim.Destroy, sim.End, sim.Log, sim.Fail},
	}.Defaults()
	c := &p12Case{App: g.App(t)}

	// refusable draws a message that is refused for the given reason.
	refusable := func(reasons ...string) (string, *sim.Msg) {
		why := sim.Pick(t, reasons)
		m := &sim.Msg{I: sim.Pick(t, g.Instances)}
		consumed := c.App.Consumed()
		var types []string
		switch why {
		case p12Invalid:
			types = consumed
			m.Bad = sim.Pick(t, []string{"<bad>", "100% bad: %s", "é", "two\nlines"})
			if sim.OneIn(t, 6) {
				types = append(slices.Clone(sim.Commands), sim.Events...)
			}
		case p12Timeout:
			types = sim.Timeouts
			if rapid.Bool().Draw(t, "bad") {
				m.Bad = "<bad>"
			}
		default:
			for _, typ := range append(slices.Clone(sim.Commands), sim.Events...) {
				if !slices.Contains(consumed, typ) && (tk.Uses(c.App, typ) != (why == p12Unrecognized)) {
					types = append(types, typ)
				}
			}
		}
		if len(types) == 0 {
			return "", nil
		}
		m.T = sim.Pick(t, types)
		return why, m
	}

	if rapid.Bool().Draw(t, "engine") {
		c.Compact = sim.OneIn(t, 4)
		for _, op := range g.History(t, c.App, 1, 5, []string{"dispatch", "dispatch", "dispatch", "tick", "reset"}, 6) {
			for range sim.Int(t, 0, 2) {
				x := &p12Op{}
				x.K = "dispatch"
				x.Now = sim.Pick(t, g.Times)
				x.Cancelled = sim.OneIn(t, 4)
				x.Refuse, x.M = refusable(p12Invalid, p12Invalid, p12Timeout, p12Unconsumed, p12Unrecognized)
				if x.M != nil {
					x.Opts = g.Opts(t, c.App, 2)
					c.Engine = append(c.Engine, x)
				}
			}
			c.Engine = append(c.Engine, &p12Op{EngineOp: *op})
		}
		next := 0
		for _, op := range c.Engine {
			sim.AssignKeys(&next, op.M)
		}
		return c
	}

	next := 0
	for range sim.Int(t, 1, 5) {
		for range sim.Int(t, 0, 2) {
			if rapid.Bool().Draw(t, "new") {
				c.Test = append(c.Test, &p12Step{New: p12DrawNew(t, g, c.App)})
				continue
			}
			r := &p12Refuse{}
			r.K, r.M = refusable(p12Invalid, p12Invalid, p12Unconsumed, p12Unrecognized)
			if r.M == nil {
				continue
			}
			via := []string{"prepare", "expect", "expect"}
			if r.M.T[0] == 'C' {
				via = append(via, "executor", "executor", "outside")
			}
			r.Via = sim.Pick(t, via)
			sim.AssignKeys(&next, r.M)
			sim.Describe(t, r.M)
			c.Test = append(c.Test, &p12Step{Ref: r})
		}

		s := &tk.Step{Acts: []*tk.Act{tk.Action(t, g, c.App, []string{tk.Dispatch, tk.Dispatch, tk.Dispatch, tk.By, tk.Call}, 0)}}
		sim.AssignKeys(&next, s.Acts[0].M)
		sim.Describe(t, s.Acts[0].M)
		for _, x := range s.Acts[0].Calls {
			sim.AssignKeys(&next, x.M)
			sim.Describe(t, x.M)
		}
		if rapid.Bool().Draw(t, "expect") {
			eg := &tk.Gen{App: c.App, Act: s.Acts[0], Kinds: []string{tk.Message, tk.Type, tk.Match, tk.Only, tk.Satisfy}, Depth: 1, Width: 2}
			s.E = eg.Exp(t)
		}
		if h := sim.Pick(t, c.App.Handlers); !h.Disabled && sim.OneIn(t, 3) {
			if rapid.Bool().Draw(t, "on") {
				s.On = []string{h.Name}
			} else {
				s.Off = []string{h.Name}
			}
		}
		c.Test = append(c.Test, &p12Step{Step: s})
	}
	return c
}

var p12Constructors = []string{
	"ExecuteCommand", "RecordEvent", "ToExecuteCommand", "ToRecordEvent",
	"ToExecuteCommandOfType", "ToRecordEventOfType",
	"ToExecuteCommandMatching", "ToOnlyExecuteCommandsMatching", "ToRecordEventMatching", "ToOnlyRecordEventsMatching",
	"AllOf", "AnyOf", "NoneOf", "Not", "ToRepeatedly", "ToSatisfy", "Call", "AdvanceTime", "ByDuration", "ToTime", "InterceptCommandExecutor",
	"WithObserver", "WithResetter",
}

func p12DrawNew(t *rapid.T, g *sim.Gen, app *sim.App) *p12New {
	n := &p12New{
		K: sim.Pick(t, p12Constructors),
		N: sim.Pick(t, []int{-1000000000, -3, -2, -1, 0, 1, 2, 3, 10, 1000000000}),
		S: sim.Pick(t, []string{"", "", "<desc>", " ", "100%", "two\nlines"}),
		F: !sim.OneIn(t, 3),
	}
	switch n.K {
	case "AllOf", "AnyOf", "NoneOf":
		n.N = sim.Int(t, 0, 3)
	case "ToRepeatedly":
		n.N = sim.Pick(t, []int{-100, -1, 0, 1, 2, 3})
	}
	types := sim.Commands
	if strings.Contains(n.K, "Event") {
		types = sim.Events
	}
	if !sim.OneIn(t, 5) {
		n.M = &sim.Msg{T: sim.Pick(t, types), K: sim.Int(t, 1, 9)}
		sim.Describe(t, n.M)
		if rapid.Bool().Draw(t, "bad") {
			n.M.Bad = sim.Pick(t, []string{"<bad>", "100% bad: %s", "é"})
		}
	}
	return n
}

// unusable returns true if the arguments can not be used.
func (n *p12New) unusable() bool {
	switch n.K {
	case "ExecuteCommand", "RecordEvent", "ToExecuteCommand", "ToRecordEvent":
		return n.M == nil || n.M.Bad != ""
	case "ToExecuteCommandOfType", "ToRecordEventOfType":
		return n.M == nil
	case "AllOf", "AnyOf", "NoneOf":
		return n.N == 0
	case "ToRepeatedly":
		return !n.F || n.N < 1 || n.S == ""
	case "ToSatisfy":
		return !n.F || n.S == ""
	case "Not", "ToTime":
		return false
	case "ByDuration":
		return n.N < 0
	}
	return !n.F
}

// construct calls the constructor.
func (n *p12New) construct() {
	var (
		cmd   dogma.Command
		evt   dogma.Event
		child = testkit.ToSatisfy("<child>", func(*testkit.SatisfyT) {})
		list  []testkit.Expectation
		adj   testkit.TimeAdjustment
	)
	if n.M != nil {
		if n.M.T[0] == 'C' {
			cmd = n.M.Command()
		} else {
			evt = n.M.Event()
		}
	}
	for range n.N % 10 {
		list = append(list, child)
	}

	switch n.K {
	case "ExecuteCommand":
		testkit.ExecuteCommand(cmd)
	case "RecordEvent":
		testkit.RecordEvent(evt)
	case "ToExecuteCommand":
		testkit.ToExecuteCommand(cmd)
	case "ToRecordEvent":
		testkit.ToRecordEvent(evt)
	case "ToExecuteCommandOfType":
		testkit.ToExecuteCommandOfType(cmd)
	case "ToRecordEventOfType":
		testkit.ToRecordEventOfType(evt)
	case "ToExecuteCommandMatching":
		testkit.ToExecuteCommandMatching(p12Func[func(sim.C0) error](n.F, func(sim.C0) error { return nil }))
	case "ToOnlyExecuteCommandsMatching":
		testkit.ToOnlyExecuteCommandsMatching(p12Func[func(dogma.Command) error](n.F, func(dogma.Command) error { return nil }))
	case "ToRecordEventMatching":
		testkit.ToRecordEventMatching(p12Func[func(dogma.Event) error](n.F, func(dogma.Event) error { return nil }))
	case "ToOnlyRecordEventsMatching":
		testkit.ToOnlyRecordEventsMatching(p12Func[func(sim.E0) error](n.F, func(sim.E0) error { return nil }))
	case "AllOf":
		testkit.AllOf(list...)
	case "AnyOf":
		testkit.AnyOf(list...)
	case "NoneOf":
		testkit.NoneOf(list...)
	case "Not":
		testkit.Not(child)
	case "ToRepeatedly":
		testkit.ToRepeatedly(n.S, n.N, p12Func[func(int) testkit.Expectation](n.F, func(int) testkit.Expectation { return child }))
	case "ToSatisfy":
		testkit.ToSatisfy(n.S, p12Func[func(*testkit.SatisfyT)](n.F, func(*testkit.SatisfyT) {}))
	case "Call":
		testkit.Call(p12Func[func()](n.F, func() {}))
	case "AdvanceTime":
		if n.F {
			adj = testkit.ByDuration(time.Second)
		}
		testkit.AdvanceTime(adj)
	case "ByDuration":
		testkit.ByDuration(time.Duration(n.N))
	case "ToTime":
		testkit.ToTime(sim.At(int64(n.N)))
	case "InterceptCommandExecutor":
		testkit.InterceptCommandExecutor(p12Func[testkit.CommandExecutorInterceptor](n.F, func(context.Context, dogma.Command, dogma.CommandExecutor) error { return nil }))
	case "WithObserver":
		var o fact.Observer
		if n.F {
			o = &fact.Buffer{}
		}
		engine.WithObserver(o)
	case "WithResetter":
		engine.WithResetter(p12Func[func()](n.F, func() {}))
	default:
		panic("unknown constructor " + n.K)
	}
}

// p12Func returns fn, or nil if ok is false.
func p12Func[F any](ok bool, fn F) F {
	if !ok {
		var zero F
		return zero
	}
	return fn
}

func (n *p12New) judge(st *prop.Stats) error {
	res := sim.Capture(func() error {
		n.construct()
		return nil
	})
	st.Class(fmt.Sprintf("%s, refused=%t", n.K, n.unusable()))
	if res.Panicked != n.unusable() {
		return fmt.Errorf("%s with arguments %+v: panicked=%t (%v)", n.K, *n, res.Panicked, res.Panic)
	}
	return nil
}

// p12Text checks the text of a panic that is due to the given message.
func p12Text(m *sim.Msg, v any) error {
	// A timeout is refused because of its kind, whatever its content.
	if m.T[0] == 'T' {
		return nil
	}
	s := fmt.Sprint(v)
	if !strings.Contains(s, msgTypeName(m.T)) {
		return fmt.Errorf("the panic value %q does not mention %s", s, msgTypeName(m.T))
	}
	if m.Bad != "" && !strings.Contains(s, m.Bad) {
		return fmt.Errorf("the panic value %q does not mention the validation error %q", s, m.Bad)
	}
	return nil
}

// rank returns a function that replaces the message IDs within a trace with
// others that only depend on the order in which they appear.
func rank(trace []*sim.Entry) func(string) string {
	names := map[string]string{"": ""}
	for _, e := range trace {
		if e.Kind == sim.Fact {
			a, b := envelopes(e.Fact)
			if a != nil && names[a.MessageID] == "" {
				names[a.MessageID] = fmt.Sprintf("id-%d", len(names))
			}
			if b != nil && names[b.MessageID] == "" {
				names[b.MessageID] = fmt.Sprintf("id-%d", len(names))
			}
		}
	}
	return func(id string) string {
		if n, ok := names[id]; ok {
			return n
		}
		return id
	}
}

// sameTraces returns an error if the traces are not equivalent.
func sameTraces(got, want []*sim.Entry) error {
	g, w := normalize(got, rank(got)), normalize(want, rank(want))
	for i := range max(len(g), len(w)) {
		var x, y string
		if i < len(g) {
			x = g[i]
		}
		if i < len(w) {
			y = w[i]
		}
		if x != y {
			return fmt.Errorf("with refused requests: %s\nwithout: %s\nwith refused requests:\n%s", x, y, strings.Join(g, "\n"))
		}
	}
	return nil
}

func sameResult(a, b sim.Result) bool {
	return a.Panicked == b.Panicked &&
		describePanic(a.Panic) == describePanic(b.Panic) &&
		describeError(a.Err) == describeError(b.Err)
}

func (c *p12Case) judgeEngine(st *prop.Stats) error {
	var (
		with    = sim.NewEngine(c.App, engine.EnableProjectionCompactionDuringHandling(c.Compact))
		without = sim.NewEngine(c.App, engine.EnableProjectionCompactionDuringHandling(c.Compact))
		n       = 0
		refused = false
	)

	for i, op := range c.Engine {
		if op.Refuse == "" {
			a, b := with.Run(n, &op.EngineOp), without.Run(n, &op.EngineOp)
			if !sameResult(a, b) {
				return fmt.Errorf("operation %d has result %+v, without the refused requests it has %+v", i, a, b)
			}
			n++
			st.NonTrivial(refused)
			continue
		}

		before := with.Len()
		ctx, cancel := context.WithCancel(context.Background())
		if op.Cancelled {
			cancel()
		}
		res := with.RunContext(ctx, n, &op.EngineOp)
		cancel()
		st.Class(op.Refuse)
		refused = n > 0
		if !res.Panicked {
			return fmt.Errorf("operation %d dispatches an %s message without panicking: %v", i, op.Refuse, res.Err)
		}
		if err := p12Text(op.M, res.Panic); err != nil {
			return fmt.Errorf("operation %d: %w", i, err)
		}
		if with.Len() != before {
			return fmt.Errorf("operation %d is refused, but something happened:\n%s", i, traceText(with.Trace()[before:], -1))
		}
	}

	return sameTraces(with.Trace(), without.Trace())
}

func (c *p12Case) judgeTest(st *prop.Stats) error {
	var (
		tc    = &tk.Case{App: c.App}
		a, b  = tk.Begin(tc), tk.Begin(tc)
		n     = 0
		tried = false
	)

	// logs returns everything that is observed by the test's T, other than
	// descriptions of facts, which contain message IDs.
	logs := func(r tk.StepResult) []string {
		var res []string
		for _, x := range r.Calls {
			if strings.HasPrefix(x.Text, "= ") {
				continue
			}
			text := strings.ReplaceAll(x.Text, "\n", "\n  ")
			if x.Method == "Fatal" {
				// Several handlers may fail during a tick, in any order.
				parts := strings.Split(text, "; ")
				slices.Sort(parts)
				text = strings.Join(parts, "; ")
			}
			res = append(res, x.Method+": "+text)
		}
		return res
	}

	for i, s := range c.Test {
		switch {
		case s.New != nil:
			if err := s.New.judge(st); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			tried = tried || n > 0 && s.New.unusable()

		case s.Ref != nil:
			before := a.World.Len()
			if err := s.Ref.perform(a, 1000+i, st); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if a.World.Len() != before {
				return fmt.Errorf("step %d is refused, but something happened:\n%s", i, traceText(a.World.Trace()[before:], -1))
			}
			tried = tried || n > 0

		default:
			x, y := a.Step(n, s.Step), b.Step(n, s.Step)
			if x.Panicked != y.Panicked || describePanic(x.Panic) != describePanic(y.Panic) || x.Stopped != y.Stopped {
				return fmt.Errorf("step %d: stopped=%t panic=%v, without the refused requests: stopped=%t panic=%v", i, x.Stopped, x.Panic, y.Stopped, y.Panic)
			}
			if x, y := logs(x), logs(y); !slices.Equal(x, y) {
				return fmt.Errorf("step %d: logs:\n%s\nwithout the refused requests:\n%s", i, strings.Join(x, "\n"), strings.Join(y, "\n"))
			}
			n++
			st.NonTrivial(tried)
		}
	}

	return sameTraces(a.World.Trace(), b.World.Trace())
}

// perform makes the request.
func (r *p12Refuse) perform(run *tk.Run, n int, st *prop.Stats) error {
	m := tk.Clone(r.M)

	// The message only becomes invalid after the action is built.
	bad := m.Bad
	m.Bad = ""

	var (
		act    testkit.Action
		caught sim.Result
	)
	switch {
	case r.Via == "executor":
		act = testkit.Call(func() {
			caught = sim.Capture(func() error {
				return run.Test.CommandExecutor().ExecuteCommand(context.Background(), m.Command())
			})
			if caught.Panicked {
				panic(caught.Panic)
			}
		})
	case r.Via == "outside":
	case m.T[0] == 'C':
		act = testkit.ExecuteCommand(m.Command())
	default:
		act = testkit.RecordEvent(m.Event())
	}
	m.Bad = bad

	passing := testkit.ToSatisfy("<pass>", func(*testkit.SatisfyT) {})
	res := run.Do(n, func() {
		switch r.Via {
		case "outside":
			if err := run.Test.CommandExecutor().ExecuteCommand(context.Background(), m.Command()); err != nil {
				panic(errors.Join(err))
			}
		case "expect":
			run.Test.Expect(act, passing)
		default:
			run.Test.Prepare(act)
		}
	})
	st.Class(r.K + " via " + r.Via)

	// An action that uses a type of message that is not part of the
	// application at all merely fails.
	unknown := r.Via != "executor" && r.Via != "outside" && !tk.Uses(run.Case.App, m.T)
	if unknown {
		if !res.Stopped || len(res.Of("Fatal")) != 1 {
			return fmt.Errorf("a %s is dispatched, which is not part of the application, but the test is not stopped (%+v)", m.T, res)
		}
		return nil
	}

	if !res.Panicked {
		return fmt.Errorf("%s message is dispatched via %s without panicking (%+v)", r.K, r.Via, res)
	}
	if r.Via == "outside" {
		return nil
	}
	return p12Text(m, res.Panic)
}
