package checks

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"slices"
	"strings"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/location"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

type p23Case struct {
	App   *sim.App
	Opts  []sim.Opt   `json:",omitempty"`
	Inter []*p23Inter `json:",omitempty"` // options of the test
	Steps []*p23Step
}

// p23Inter is an interceptor.
type p23Inter struct {
	ID int
	Do []p23Do `json:",omitempty"`

	// Return is "" to return nil, "last" to return the result of the last
	// command that was passed on, "own" to return an error of its own or
	// "panic" to panic.
	Return string `json:",omitempty"`
}

type p23Do struct {
	K string   // "forward", "send" or "reenter"
	M *sim.Msg `json:",omitempty"`
}

type p23Step struct {
	// Outside is a command that is executed before the step.
	Outside *sim.Msg `json:",omitempty"`

	On, Off []string `json:",omitempty"`
	Expect  bool     `json:",omitempty"`
	Acts    []*p23Act
}

type p23Act struct {
	K     string      // "call", "dispatch", "by" or "custom"
	M     *sim.Msg    `json:",omitempty"`
	D     int64       `json:",omitempty"`
	Calls []*p23Call  `json:",omitempty"`
	Inter []*p23Inter `json:",omitempty"`
}

type p23Call struct {
	K       string   // "execute", "panic" or "goexit"
	M       *sim.Msg `json:",omitempty"`
	Recover bool     `json:",omitempty"`
}

func init() {
	prop.Register("P23", prop.Options{
		Rule: "A case is an application and a test of several steps that use the command executor within and outside of call actions, with interceptors at both levels that forward, drop, replace, duplicate, fail and panic. " +
			"It is non-trivial if commands are intercepted by at least two interceptors, or if a command is executed after a call action ended abnormally.",
		Quick:    125000,
		Thorough: 750000,
		Assumptions: []string{
			"Actions are not nested within one another.",
		},
	}, p23Draw, func(cp **p23Case, st *prop.Stats) error {
		return (*cp).judge(st)
	})
}

func p23Draw(t *rapid.T) *p23Case {
	g := sim.Gen{
		Max:          map[string]int{sim.Aggregate: 2, sim.Process: 1, sim.Integration: 2, sim.Projection: 1},
		MaxMessages:  5,
		NumInstances: 2,
		Times:        []int64{0, 1000, 2000, 3000},
		Schedule:     2,
		Ops:          []string{sim.End, sim.Fail},
	}.Defaults()
	c := &p23Case{App: g.App(t)}

	commands := slices.DeleteFunc(slices.Clone(c.App.Consumed()), func(s string) bool { return s[0] != 'C' })
	if len(commands) == 0 {
		h := &sim.Handler{Name: "extra", Type: sim.Integration, Consumes: []string{sim.Commands[0]}}
		c.App.Handlers = append(c.App.Handlers, h)
		commands = h.Consumes
	}
	c.Opts = g.Opts(t, c.App, 3)
	if rapid.Bool().Draw(t, "on") {
		c.Opts = append(c.Opts, sim.Opt{Type: sim.Integration, On: true})
	}

	var (
		inters = 0
		cmd    = func() *sim.Msg {
			m := g.Tree(t, c.App, commands)
			switch sim.Int(t, 0, 15) {
			case 0:
				m.Bad = "<invalid>"
				m.Do = nil
			case 1:
				var other []string
				for _, s := range sim.Commands {
					if !slices.Contains(commands, s) {
						other = append(other, s)
					}
				}
				if len(other) > 0 {
					m.T = sim.Pick(t, other)
					m.Do = nil
				}
			}
			return m
		}
		inter = func(max int) []*p23Inter {
			var res []*p23Inter
			for range sim.Int(t, 0, max) {
				inters++
				x := &p23Inter{ID: inters}
				for range sim.Int(t, 0, 2) {
					d := p23Do{K: sim.Pick(t, []string{"forward", "forward", "forward", "send", "reenter"})}
					if d.K != "forward" {
						d.M = cmd()
					}
					x.Do = append(x.Do, d)
				}
				x.Return = sim.Pick(t, []string{"", "last", "last", "own", "panic"})
				res = append(res, x)
			}
			return res
		}
		names []string
	)
	for _, h := range c.App.Handlers {
		names = append(names, h.Name)
	}

	if rapid.Bool().Draw(t, "intercept") {
		c.Inter = inter(2)
	}
	for range sim.Int(t, 2, 5) {
		s := &p23Step{}
		if sim.OneIn(t, 3) {
			s.Outside = cmd()
		}
		if sim.OneIn(t, 5) {
			s.On = sim.Subset(t, names, 1)
		}
		if sim.OneIn(t, 5) {
			s.Off = sim.Subset(t, names, 1)
		}
		for range sim.Int(t, 1, 3) {
			a := &p23Act{K: sim.Pick(t, []string{"call", "call", "call", "dispatch", "by", "custom"})}
			switch a.K {
			case "call":
				for range sim.Int(t, 0, 3) {
					k := &p23Call{K: "execute", M: cmd(), Recover: !sim.OneIn(t, 3)}
					if sim.OneIn(t, 8) {
						k = &p23Call{K: sim.Pick(t, []string{"panic", "goexit"})}
					}
					a.Calls = append(a.Calls, k)
				}
				if rapid.Bool().Draw(t, "intercept") {
					a.Inter = inter(2)
				}
			case "dispatch":
				a.M = g.Tree(t, c.App, g.RootTypes(t, c.App))
			case "by":
				a.D = sim.Pick(t, g.Times)
			case "custom":
				a.M = cmd()
			}
			s.Acts = append(s.Acts, a)
		}
		if len(s.Acts) == 1 {
			s.Expect = rapid.Bool().Draw(t, "expect")
		}
		c.Steps = append(c.Steps, s)
	}

	next := 0
	keys := func(is []*p23Inter) {
		for _, x := range is {
			for _, d := range x.Do {
				sim.AssignKeys(&next, d.M)
			}
		}
	}
	keys(c.Inter)
	for _, s := range c.Steps {
		sim.AssignKeys(&next, s.Outside)
		for _, a := range s.Acts {
			sim.AssignKeys(&next, a.M)
			for _, k := range a.Calls {
				sim.AssignKeys(&next, k.M)
			}
			keys(a.Inter)
		}
	}
	return c
}

// p23Run is a running test.
type p23Run struct {
	*tk.Run
	c    *p23Case
	st   *prop.Stats
	err  error
	exec dogma.CommandExecutor

	// inter is the interceptor in force.
	inter *p23Inter

	// pending is the command that is about to be intercepted.
	pending *sim.Msg
	given   int

	depth   int
	sent    map[int]bool
	seen    map[int]bool
	stopped bool
}

// fail records the first failure.
func (r *p23Run) fail(f string, args ...any) {
	if r.err == nil {
		r.err = fmt.Errorf(f, args...)
	}
}

type p23Panic struct{ ID int }

type p23Key struct{}

// refused returns true if the engine panics if m is dispatched.
func (r *p23Run) refused(m *sim.Msg) bool {
	return m.Bad != "" || len(r.c.App.ConsumersOf(m.T)) == 0
}

// send performs fn, which is expected to cause the engine to dispatch m.
func (r *p23Run) send(m *sim.Msg, fn func() error) error {
	if r.sent[m.K] && (len(m.Do) > 0 || r.refused(m)) {
		return nil
	}
	r.sent[m.K] = true

	if r.refused(m) {
		r.World.Begin(tk.Outside)
		return fn()
	}

	r.BeginOp(&sim.EngineOp{K: "dispatch", M: m})
	n := len(r.Ops) - 1
	defer r.World.Begin(tk.Outside)
	err := fn()
	r.Results[n].Err = err
	return err
}

// intercept returns the interceptor function.
func (r *p23Run) intercept(x *p23Inter) testkit.CommandExecutorInterceptor {
	own := fmt.Errorf("<error of interceptor %d>", x.ID)

	return func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) (err error) {
		r.given++
		r.seen[x.ID] = true

		if r.inter != x {
			r.fail("interceptor %d is used, even though it is not in force", x.ID)
			return nil
		}
		if r.pending == nil || sim.Of(m) != r.pending {
			r.fail("interceptor %d is given the wrong command", x.ID)
			return nil
		}
		msg := r.pending
		r.pending = nil

		var last error
		for _, d := range x.Do {
			switch d.K {
			case "forward":
				last = r.send(msg, func() error { return e.ExecuteCommand(ctx, m) })
			case "send":
				last = r.send(d.M, func() error { return e.ExecuteCommand(ctx, d.M.Command()) })
			case "reenter":
				if r.depth < 2 && !r.sent[d.M.K] {
					r.st.Class("executor used by interceptor")
					last = r.execute(ctx, d.M)
				}
			}
		}
		switch x.Return {
		case "last":
			return last
		case "own":
			return own
		case "panic":
			panic(p23Panic{x.ID})
		}
		return nil
	}
}

// execute executes a command within a call action.
func (r *p23Run) execute(ctx context.Context, m *sim.Msg) error {
	if r.inter == nil {
		return r.send(m, func() error { return r.exec.ExecuteCommand(ctx, m.Command()) })
	}

	r.depth++
	defer func() { r.depth-- }()

	r.World.Begin(tk.Outside)
	r.pending = m
	before := r.given
	err := r.exec.ExecuteCommand(ctx, m.Command())
	if r.given == before {
		r.fail("command #%d is not given to interceptor %d", m.K, r.inter.ID)
	}
	return err
}

// checkExecute executes a command and checks the result.
func (r *p23Run) checkExecute(k *p23Call) {
	x := r.inter
	before := len(r.Ops)
	res := sim.Capture(func() error { return r.execute(context.Background(), k.M) })

	if x == nil {
		r.st.Class("not intercepted")
		if r.refused(k.M) {
			r.st.Class("refused by engine")
			if !res.Panicked {
				r.fail("command #%d is not refused", k.M.K)
			}
		} else if res.Panicked {
			r.fail("executing command #%d panics: %v", k.M.K, res.Panic)
		}
		// The error is checked along with those of other operations.
	} else {
		r.st.Class("intercepted")
		want, last := x.Return, error(nil)
		if before < len(r.Ops) {
			last = r.Results[len(r.Ops)-1].Err
		}
		_, isOwn := res.Panic.(p23Panic)
		switch {
		case res.Panicked && !isOwn:
			// The engine refused what it was given, or an inner interceptor
			// panicked.
			ok := false
			for _, d := range x.Do {
				ok = ok || d.K == "forward" && r.refused(k.M) || d.M != nil && r.refused(d.M)
			}
			if !ok {
				r.fail("executing command #%d panics: %v", k.M.K, res.Panic)
			}
		case want == "panic" || res.Panicked:
			if res.Panic != any(p23Panic{x.ID}) {
				r.fail("the interceptor's panic does not reach the caller: %v", res.Panic)
			}
		case want == "":
			if res.Err != nil {
				r.fail("the interceptor returned nil, but the caller gets %q", res.Err)
			}
		case want == "own":
			if res.Err == nil || res.Err.Error() != fmt.Sprintf("<error of interceptor %d>", x.ID) {
				r.fail("the interceptor returned an error of its own, but the caller gets %v", res.Err)
			}
		case want == "last":
			if !slices.ContainsFunc(x.Do, func(d p23Do) bool { return d.K == "reenter" }) && len(x.Do) == 1 && before < len(r.Ops) {
				if res.Err != last {
					r.fail("the interceptor returned %v, but the caller gets %v", last, res.Err)
				}
				r.st.ClassIf(last != nil, "error returned via interceptor")
			}
		}
	}

	if res.Panicked && !k.Recover {
		panic(res.Panic)
	}
}

// attempt executes a command outside of any call action.
func (r *p23Run) attempt(m *sim.Msg) {
	r.World.Begin(tk.Outside)
	r.pending = nil
	before := r.given
	res := sim.Capture(func() error { return r.exec.ExecuteCommand(context.Background(), m.Command()) })
	if !res.Panicked {
		r.fail("the executor does not panic when used outside of a call action (error: %v)", res.Err)
	} else if s, ok := res.Panic.(string); !ok || !strings.Contains(s, "outside") {
		r.fail("the executor panics with an unexpected value when used outside of a call action: %v", res.Panic)
	}
	if r.given != before {
		r.fail("a command executed outside of a call action is given to an interceptor")
	}
}

type p23Custom struct {
	do func()
}

func (c *p23Custom) Caption() string                              { return "custom action" }
func (c *p23Custom) Location() location.Location                  { return location.Location{} }
func (c *p23Custom) ConfigurePredicate(*testkit.PredicateOptions) {}
func (c *p23Custom) Do(context.Context, testkit.ActionScope) error {
	c.do()
	return nil
}

func (c *p23Case) judge(st *prop.Stats) error {
	r := &p23Run{
		c:    c,
		st:   st,
		sent: map[int]bool{},
		seen: map[int]bool{},
	}

	var (
		opts  []testkit.TestOption
		outer *p23Inter
	)
	for _, x := range c.Inter {
		opts = append(opts, testkit.InterceptCommandExecutor(r.intercept(x)))
		outer = x
	}
	r.inter = outer
	r.Run = tk.Begin(&tk.Case{App: c.App, Opts: c.Opts}, opts...)
	r.exec = r.Test.CommandExecutor()
	abnormal := false

	for i, s := range c.Steps {
		if s.Outside != nil {
			r.attempt(s.Outside)
			st.ClassIf(abnormal, "outside, after abnormal end")
			st.NonTrivial(abnormal)
		}
		for _, n := range s.On {
			if !c.App.Handler(n).Disabled {
				r.Test.EnableHandlers(n)
				r.Opts = append(r.Opts, sim.Opt{Name: n, On: true})
			}
		}
		for _, n := range s.Off {
			r.Test.DisableHandlers(n)
			r.Opts = append(r.Opts, sim.Opt{Name: n})
		}

		var (
			acts    []testkit.Action
			current *p23Act
			ends    = map[*p23Act]bool{}
			lastOp  = -1
		)
		for _, a := range s.Acts {
			acts = append(acts, &p23Custom{func() {
				current = a
				r.World.Begin(tk.Outside)
				switch a.K {
				case "dispatch":
					r.BeginOp(&sim.EngineOp{K: "dispatch", M: a.M})
					lastOp = len(r.Ops) - 1
				case "by":
					r.Clock += a.D
					r.BeginOp(&sim.EngineOp{K: "tick"})
					lastOp = len(r.Ops) - 1
				}
			}})

			switch a.K {
			case "dispatch":
				acts = append(acts, (*tk.Run)(r.Run).Action(&tk.Act{K: tk.Dispatch, M: a.M}))
			case "by":
				acts = append(acts, r.Run.Action(&tk.Act{K: tk.By, D: a.D}))
			case "custom":
				acts = append(acts, &p23Custom{func() { r.attempt(a.M) }})
			case "call":
				var opts []testkit.CallOption
				in := outer
				for _, x := range a.Inter {
					opts = append(opts, testkit.InterceptCommandExecutor(r.intercept(x)))
					in = x
				}
				acts = append(acts, testkit.Call(func() {
					r.inter = in
					r.World.Begin(tk.Outside)
					defer func() { r.inter = outer }()
					for _, k := range a.Calls {
						st.ClassIf(abnormal, "call after abnormal end")
						if abnormal {
							st.NonTrivial(true)
						}
						switch k.K {
						case "execute":
							r.checkExecute(k)
						case "panic":
							panic(tk.CallPanic)
						case "goexit":
							runtime.Goexit()
						}
					}
					ends[a] = true
				}, opts...))
			}
		}

		done := make(chan tk.StepResult, 1)
		go func() {
			normal := false
			var res tk.StepResult
			defer func() {
				if !normal {
					res = tk.StepResult{Calls: r.T.Calls(i), Panicked: true, Panic: "exit"}
				}
				done <- res
			}()
			res = r.Do(i, func() {
				if s.Expect {
					r.Test.Prepare(acts[0])
					r.Test.Expect(acts[1], testkit.ToSatisfy("pass", func(*testkit.SatisfyT) {}))
				} else {
					r.Test.Prepare(acts...)
				}
			})
			normal = true
		}()
		res := <-done
		r.World.Begin(tk.Outside)

		if r.err != nil {
			return fmt.Errorf("step %d: %w", i, r.err)
		}

		if res.Panicked && (current == nil || current.K != "call") {
			return fmt.Errorf("step %d panicked: %v", i, res.Panic)
		}
		if res.Panicked || current.K == "call" && !ends[current] {
			abnormal = true
			st.Class("call ended abnormally")
		}
		if res.Stopped {
			f := res.Of("Fatal")
			if len(f) != 1 || current.K == "call" {
				return fmt.Errorf("step %d was stopped during %s: %v", i, current.K, res.Calls)
			}
			if err, ok := f[0].Args[0].(error); ok && lastOp >= 0 {
				r.Results[lastOp].Err = err
			}
		} else if !res.Panicked {
			for _, a := range s.Acts {
				if a.K == "call" && !ends[a] {
					return fmt.Errorf("step %d: a function was not called", i)
				}
			}
		}
	}

	// Each command is dispatched once, at the current time, and nothing else
	// reaches the engine.
	cycles := make([]int, len(r.Ops))
	for _, e := range r.World.Trace() {
		if e.Op == tk.Outside {
			return fmt.Errorf("a command that was refused, intercepted or executed outside of a call action reached the engine: %s", e)
		}
		if t, ok := factTime(e); ok {
			cycles[e.Op]++
			if !t.Equal(sim.At(r.Ops[e.Op].Now)) {
				return fmt.Errorf("operation %d is performed at %s, expected %s", e.Op, t, sim.At(r.Ops[e.Op].Now))
			}
		}
		if f, ok := e.Fact.(fact.DispatchCycleBegun); ok && sim.Of(f.Envelope.Message) != r.Ops[e.Op].M {
			return fmt.Errorf("operation %d dispatches the wrong message", e.Op)
		}
	}
	for i, n := range cycles {
		if n != 1 {
			return fmt.Errorf("operation %d (%s) is performed %d times", i, r.Ops[i].K, n)
		}
	}
	for i, res := range r.Results {
		st.ClassIf(res.Err != nil && errors.Unwrap(res.Err) != nil, fmt.Sprintf("error of %s", r.Ops[i].K))
	}
	st.NonTrivial(len(r.seen) >= 2)

	return checkErrors(r.Model(), r.World.Trace(), r.Results, &prop.Stats{})
}
