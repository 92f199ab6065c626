package checks

import (
	"context"
	"fmt"
	"runtime"
	"slices"
	"sync"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

type p32Case struct {
	App  *sim.App
	Opts []sim.Opt `json:",omitempty"`

	// Intercept is true if there is an interceptor, which passes commands on.
	Intercept bool `json:",omitempty"`

	// Silent causes the calls to the handlers not to be recorded, because doing
	// so hides data races.
	Silent bool `json:",omitempty"`

	// Jitter is true if observers yield.
	Jitter bool `json:",omitempty"`

	// Equal is true if all goroutines of a step execute the same command.
	Equal bool `json:",omitempty"`

	Steps []*p32Step
}

type p32Step struct {
	// Before are actions that are performed before the call.
	Before []*tk.Act `json:",omitempty"`

	// Threads are the commands executed by each goroutine.
	Threads [][]*sim.Msg

	// Start is the number of times each goroutine yields before it begins.
	Start []int

	// E is the expectation, if any.
	E *tk.Exp `json:",omitempty"`

	// Intercept is true if the call has an interceptor, which passes commands
	// on.
	Intercept bool `json:",omitempty"`
}

func init() {
	prop.Register("P32", prop.Options{
		Rule: "A case is an application and a test of 1 to 3 call actions within which 2 to 6 goroutines each execute up to 4 commands, some of them intercepted, with yields within handlers, interceptors and observers. " +
			"It is non-trivial if at least two goroutines execute commands and the order in which they took effect is not that of the goroutines.",
		Quick:    16000,
		Thorough: 200000,
		Race:     true,
		Repeat:   2,
	}, func(t *rapid.T) *p32Case {
		g := sim.Gen{
			Max:          map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 1, sim.Projection: 1},
			MaxMessages:  5,
			NumInstances: 2,
			Times:        []int64{0, 1000, 2000},
			Schedule:     2,
			Ops:          []string{sim.Yield, sim.Yield, sim.Yield, sim.Destroy, sim.End, sim.Log, sim.Fail},
		}.Defaults()
		c := &p32Case{App: g.App(t)}
		commands := slices.DeleteFunc(slices.Clone(c.App.Consumed()), func(s string) bool { return s[0] != 'C' })
		if len(commands) == 0 {
			h := &sim.Handler{Name: "extra", Type: sim.Integration, Consumes: []string{sim.Commands[0]}}
			c.App.Handlers = append(c.App.Handlers, h)
			commands = h.Consumes
		}
		for _, typ := range []string{sim.Integration, sim.Projection} {
			c.Opts = append(c.Opts, sim.Opt{Type: typ, On: !sim.OneIn(t, 4)})
		}
		c.Intercept = sim.OneIn(t, 3)
		c.Silent = sim.OneIn(t, 3)
		c.Jitter = rapid.Bool().Draw(t, "jitter")
		c.Equal = sim.OneIn(t, 4)
		if c.Equal {
			g.Ops = slices.DeleteFunc(g.Ops, func(k string) bool { return k == sim.Fail })
		}
		anon := sim.OneIn(t, 3)

		next := 1
		for range sim.Int(t, 1, 3) {
			s := &p32Step{Intercept: sim.OneIn(t, 4)}
			for range sim.Int(t, 0, 1) {
				a := tk.Action(t, g, c.App, []string{tk.Dispatch, tk.By}, 0)
				sim.AssignKeys(&next, a.M)
				s.Before = append(s.Before, a)
			}
			act := &tk.Act{K: tk.Call}
			for range sim.Int(t, 2, 6) {
				var cmds []*sim.Msg
				for range sim.Int(t, 1, 4) {
					if c.Equal && len(act.Calls) > 0 {
						cmds = append(cmds, act.Calls[0].M)
						continue
					}
					m := g.Tree(t, c.App, commands)
					sim.AssignKeys(&next, m)
					m.Walk(func(m *sim.Msg) { m.Anon = anon })
					m.Shared = c.Equal
					cmds = append(cmds, m)
					act.Calls = append(act.Calls, &tk.CallOp{K: "execute", M: m})
				}
				s.Threads = append(s.Threads, cmds)
				s.Start = append(s.Start, sim.Int(t, 0, 20))
			}
			if !sim.OneIn(t, 4) {
				eg := tk.Gen{
					App:   c.App,
					Act:   act,
					Depth: sim.Int(t, 0, 2),
					Width: 3,
					Kinds: []string{tk.Fixed, tk.Fixed, tk.Satisfy, tk.Type, tk.Match, tk.Only},
				}
				if !c.Equal && !anon {
					eg.Kinds = append(eg.Kinds, tk.Message)
				}
				s.E = eg.Exp(t)
			}
			c.Steps = append(c.Steps, s)
		}
		return c
	}, func(cp **p32Case, st *prop.Stats) error {
		c := *cp
		prop.Races()
		err := c.judge(st)
		if r := prop.Races(); r != "" {
			return fmt.Errorf("data race:\n%s", r)
		}
		return err
	})
}

func (c *p32Case) judge(st *prop.Stats) error {
	var (
		m           sync.Mutex
		intercepted = map[int]int{} // key of message -> number of times intercepted
		interceptor = func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
			runtime.Gosched()
			return e.ExecuteCommand(ctx, m)
		}
	)
	if !c.Silent {
		next := interceptor
		interceptor = func(ctx context.Context, x dogma.Command, e dogma.CommandExecutor) error {
			m.Lock()
			intercepted[sim.Of(x).K]++
			m.Unlock()
			return next(ctx, x, e)
		}
	}

	var opts []testkit.TestOption
	if c.Intercept {
		opts = append(opts, testkit.InterceptCommandExecutor(interceptor))
	}

	for _, s := range c.Steps {
		var ops []*sim.EngineOp
		for _, cmds := range s.Threads {
			for _, m := range cmds {
				ops = append(ops, &sim.EngineOp{M: m})
			}
		}
		sim.Link(ops)
		for _, cmds := range s.Threads {
			for k := range cmds {
				cmds[k], ops = ops[0].M, ops[1:]
			}
		}
	}

	tc := &tk.Case{App: c.App, Opts: c.Opts}
	r := tk.Begin(tc, opts...)
	r.World.Silent = c.Silent
	r.World.Jitter = c.Jitter
	if c.Silent {
		r.T.World = nil
	}

	serial := &sim.Case{App: c.App, Compact: true}
	var (
		trace   []*sim.Entry
		results []sim.Result
		inOrder = true
		threads = 0
	)

	for i, s := range c.Steps {
		start := r.World.Len()
		first := len(r.Ops)
		res := r.Step(2*i, &tk.Step{Acts: s.Before})
		if res.Panicked {
			return fmt.Errorf("preparation of step %d panicked: %v", i, res.Panic)
		}
		if f := res.Of("Fatal"); len(f) == 1 && len(r.Results) == first+1 {
			// Timeouts that were scheduled by earlier commands may fail.
			r.Results[first].Err, _ = f[0].Args[0].(error)
		} else if len(f) > 0 {
			return fmt.Errorf("preparation of step %d failed: %s", i, f[0].Text)
		}
		for _, e := range r.World.Trace()[start:] {
			x := *e
			x.Op += len(serial.Ops) - first
			trace = append(trace, &x)
		}
		serial.Ops = append(serial.Ops, r.Ops[first:]...)
		results = append(results, r.Results[first:]...)

		// Perform the call.
		var (
			ops  = map[int]*sim.EngineOp{} // key of message -> operation
			uses = map[int]int{}           // key of message -> number of operations
			errs = map[int]error{}         // key of message -> result
		)
		r.Builder.Clear()
		r.Builder.OnSatisfy = func(e *tk.Exp, t *testkit.SatisfyT) {
			if e.V == tk.Fail {
				t.Fail()
			}
		}
		call := func() {
			var (
				wg    sync.WaitGroup
				begin = make(chan struct{})
			)
			for j, cmds := range s.Threads {
				got := make([]error, len(cmds))
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-begin
					for range s.Start[j] {
						runtime.Gosched()
					}
					for k, m := range cmds {
						got[k] = r.Test.CommandExecutor().ExecuteCommand(context.Background(), m.Command())
					}
				}()
				defer func() {
					for k, m := range cmds {
						if errs[m.K] == nil {
							errs[m.K] = got[k]
						}
					}
				}()
			}
			close(begin)
			wg.Wait()
		}
		for _, cmds := range s.Threads {
			threads++
			for _, m := range cmds {
				uses[m.K]++
				ops[m.K] = &sim.EngineOp{K: "dispatch", M: m, Now: r.Clock, Opts: slices.Clone(r.Opts)}
			}
		}
		var callOpts []testkit.CallOption
		if s.Intercept {
			callOpts = append(callOpts, testkit.InterceptCommandExecutor(interceptor))
		}
		clear(intercepted)

		start = r.World.Len()
		res = r.Do(2*i+1, func() {
			if s.E != nil {
				r.Test.Expect(testkit.Call(call, callOpts...), r.Builder.Build(s.E))
			} else {
				r.Test.Prepare(testkit.Call(call, callOpts...))
			}
		})
		if res.Panicked {
			return fmt.Errorf("step %d panicked: %v", i, res.Panic)
		}
		if f := res.Of("Fatal"); len(f) > 0 {
			return fmt.Errorf("step %d failed fatally: %s", i, f[0].Text)
		}
		if c.Silent {
			continue
		}

		bad := func(f string, args ...any) error {
			return fmt.Errorf("step %d: %s\n%s", i, fmt.Sprintf(f, args...), traceText(r.World.Trace()[start:], -1))
		}
		if r.World.Overlapped.Load() {
			return bad("two handlers were called at the same time")
		}
		if r.World.NotifyOverlapped.Load() {
			return bad("an observer of the test was notified of two facts at the same time")
		}
		for k := range ops {
			want := 0
			if c.Intercept || s.Intercept {
				want = uses[k]
			}
			if intercepted[k] != want {
				return bad("command #%d is intercepted %d time(s), expected %d", k, intercepted[k], want)
			}
		}

		// Find the order in which the commands took effect.
		var (
			current = -1            // index of the operation
			done    = map[int]int{} // key of message -> number of times it took effect
			before  = -1
			facts   []fact.Fact
			seen    []*sim.Msg
		)
		for _, e := range r.World.Trace()[start:] {
			x := *e
			if e.Kind == sim.Fact {
				facts = append(facts, e.Fact)
				switch f := e.Fact.(type) {
				case fact.DispatchCycleBegun, fact.DispatchCycleCompleted:
					// These may occur before the engine is available, or after
					// it has become so.
					continue
				case fact.DispatchBegun:
					m := sim.Of(f.Envelope.Message)
					op := ops[m.K]
					if op == nil {
						break
					}
					done[m.K]++
					current = len(serial.Ops)
					serial.Ops = append(serial.Ops, op)
					results = append(results, sim.Result{Err: errs[m.K]})
					seen = append(seen, m)
					inOrder = inOrder && m.K > before
					before = m.K
				}
			}
			if current < 0 {
				return bad("%s outside of any operation", e)
			}
			x.Op = current
			if e.Kind == sim.Done {
				switch e.Do.K {
				case sim.Record, sim.Execute, sim.Schedule:
					seen = append(seen, e.Do.M)
				}
			}
			trace = append(trace, &x)
		}
		for k := range ops {
			if done[k] != uses[k] {
				return bad("command #%d took effect %d time(s), expected %d", k, done[k], uses[k])
			}
		}

		for _, l := range r.Builder.Leaves {
			n := 0
			for _, ev := range l.Events {
				if ev.What != "notify" {
					continue
				}
				if n >= len(facts) || !sameFact(facts[n], ev.Fact) {
					return bad("%q is notified of %T as fact #%d", l.Description(), ev.Fact, n)
				}
				n++
			}
			if n != len(facts) {
				return bad("%q is notified of %d facts, expected %d", l.Description(), n, len(facts))
			}
		}

		if s.E != nil {
			want := s.E.Holds(tk.Observed{Messages: seen})
			if failed := len(res.Of("FailNow")) > 0; failed == want {
				return bad("the expectation holds=%t, but the test is failed=%t", want, failed)
			}
			st.Class(fmt.Sprintf("expectation holds=%t", want))
		}
	}

	if c.Silent {
		st.Class("only checked for data races")
		return nil
	}

	s := &prop.Stats{}
	if c.Equal {
		st.Class("equal commands")
		return checkDelivery(serial, trace, s)
	}
	for _, err := range []error{
		checkErrors(serial, trace, results, s),
		checkDelivery(serial, trace, s),
		checkEnvelopes(serial, trace, s),
		checkAggregates(serial, trace, s),
		checkProcesses(serial, trace, nil, s),
		checkTimeouts(serial, trace, s),
	} {
		if err != nil {
			return fmt.Errorf("considering the commands to be executed one after another: %w", err)
		}
	}

	failures := 0
	for _, r := range results {
		if r.Err != nil {
			failures++
		}
	}
	st.ClassIf(!inOrder, "out of order")
	st.ClassIf(failures > 0, "commands fail")
	st.ClassIf(c.Intercept, "intercepted")
	st.NonTrivial(threads >= 2 && !inOrder)
	return nil
}
