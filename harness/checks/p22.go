package checks

import (
	"context"
	"fmt"
	"time"
	_ "time/tzdata" // for zones with daylight saving time

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

type p22Case struct {
	// Test is a test of an application that uses timeouts.
	Test *tk.Case `json:",omitempty"`

	// Exact is a test that is about exact times only.
	Exact *p22Exact `json:",omitempty"`
}

type p22Exact struct {
	Start *p22Time `json:",omitempty"` // system time if nil
	Ops   []*p22Op
}

type p22Time struct {
	S    int64
	N    int64 `json:",omitempty"`
	Zone int   `json:",omitempty"`
	Mono bool  `json:",omitempty"` // derived from a time with a monotonic reading
}

func (t *p22Time) Time() time.Time {
	x := time.Unix(t.S, t.N).In(p22Zone(t.Zone))
	if t.Mono {
		now := time.Now()
		// Keeps the monotonic reading, if the difference is representable.
		x = now.Add(x.Sub(now))
	}
	return x
}

// newYork is the Zone that represents a zone with daylight saving time.
const newYork = 9999

var newYorkLocation = func() *time.Location {
	l, err := time.LoadLocation("America/New_York")
	if err != nil {
		panic(err)
	}
	return l
}()

func p22Zone(minutes int) *time.Location {
	if minutes == newYork {
		return newYorkLocation
	}
	return time.FixedZone("zone", minutes*60)
}

type p22Op struct {
	K    string   // "command", "call", "by", "to", "adjust" or "adjust-by"
	D    int64    `json:",omitempty"` // duration
	T    *p22Time `json:",omitempty"`
	Zone int      `json:",omitempty"`
	E    bool     `json:",omitempty"` // use Expect() instead of Prepare()
}

func init() {
	prop.Register("P22", prop.Options{
		Rule: "A case is either a test of an application that uses timeouts, with actions that advance time in various ways, or a test with arbitrary exact times and durations. " +
			"It is non-trivial if time is advanced at least twice and either an attempt to move it backwards is refused in between, or a timeout is handled because of it.",
		Quick:    180000,
		Thorough: 1080000,
		Assumptions: []string{
			"The system clock is not adjusted during the few microseconds in which a test without a configured start time begins.",
		},
	}, func(t *rapid.T) *p22Case {
		if rapid.Bool().Draw(t, "exact") {
			return &p22Case{Exact: p22DrawExact(t)}
		}
		return &p22Case{Test: p22DrawTest(t)}
	}, func(cp **p22Case, st *prop.Stats) error {
		c := *cp
		if c.Exact != nil {
			return c.Exact.judge(st)
		}
		return p22JudgeTest(c.Test, st)
	})
}

func p22DrawTest(t *rapid.T) *tk.Case {
	g := sim.Gen{
		Max:          map[string]int{sim.Aggregate: 1, sim.Process: 2, sim.Integration: 1, sim.Projection: 1},
		MaxMessages:  6,
		NumInstances: 2,
		Times:        []int64{0, 1, 1000, 2000, 2001, 3000, 3999, 4000, 4001, 5000, 6000},
		Schedule:     4,
		Ops:          []string{sim.End},
	}.Defaults()
	c := &tk.Case{App: g.App(t)}
	for _, h := range c.App.Handlers {
		if h.Type == sim.Process && len(h.Timeouts) == 0 {
			h.Timeouts = sim.Subset(t, sim.Timeouts, 1)
		}
	}
	c.Opts = g.Opts(t, c.App, 2)
	for range sim.Count(t, 2, 6, 25) {
		s := &tk.Step{}
		for range sim.Int(t, 1, 3) {
			a := tk.Action(t, g, c.App, []string{tk.Dispatch, tk.Dispatch, tk.By, tk.To, tk.Adjust, tk.Call, tk.Failing}, 0)
			a.Zone = sim.Pick(t, []int{0, 0, 5, -7})
			switch a.K {
			case tk.Adjust:
				a.D = sim.Pick(t, []int64{0, 1000, 1001, 3000, -1, -1000})
			case tk.Failing:
				a.S = "<failure>"
				if !sim.OneIn(t, 3) {
					a.K = tk.By
					a.D = sim.Pick(t, g.Times)
				}
			}
			s.Acts = append(s.Acts, a)
		}
		if len(s.Acts) == 1 && rapid.Bool().Draw(t, "expect") {
			s.E = &tk.Exp{K: tk.Fixed, V: tk.Pass, S: "pass"}
		}
		c.Steps = append(c.Steps, s)
	}
	c.AssignKeys()
	return c
}

func p22JudgeTest(c *tk.Case, st *prop.Stats) error {
	r := tk.Begin(c)
	advanced, refused := 0, false

	for i, s := range c.Steps {
		// Determine where the step stops.
		stop, clock := -1, r.Clock
		for k, a := range s.Acts {
			if a.K == tk.Failing {
				stop = k
				break
			}
			if a.K == tk.By || a.K == tk.To || a.K == tk.Adjust {
				x := a.Target(clock)
				if x < clock {
					stop = k
					if advanced > 0 {
						refused = true
					}
					st.Class("backwards using " + a.K)
					break
				}
				st.ClassIf(x == clock, "unchanged using "+a.K)
				advanced++
				if refused {
					st.NonTrivial(true)
				}
				clock = x
			}
		}

		res := r.Step(i, s)
		if res.Panicked {
			return fmt.Errorf("step %d panicked: %v", i, res.Panic)
		}
		if stop >= 0 {
			if n := len(res.Of("Fatal")); n != 1 || !res.Stopped {
				return fmt.Errorf("step %d: action %d should fail the test, but there are %d failures", i, stop, n)
			}
		} else if res.Stopped {
			return fmt.Errorf("step %d failed: %s", i, res.Of("Fatal")[0].Text)
		}
	}

	// Count the cycles.
	cycles := make([]int, len(r.Ops))
	for _, e := range r.World.Trace() {
		if e.Op == tk.Outside {
			return fmt.Errorf("the engine is used by an action that should have no effect on it: %s", e)
		}
		t, ok := factTime(e)
		if !ok {
			continue
		}
		op := r.Ops[e.Op]
		if !t.Equal(sim.At(op.Now)) {
			return fmt.Errorf("operation %d (%s) is performed at %s, expected %s", e.Op, op.K, t, sim.At(op.Now))
		}
		if _, ok := e.Fact.(fact.TickCycleBegun); ok != (op.K == "tick") {
			return fmt.Errorf("operation %d should be a %s, but is not", e.Op, op.K)
		}
		cycles[e.Op]++
	}
	for i, n := range cycles {
		if n != 1 {
			return fmt.Errorf("operation %d (%s) is performed %d times", i, r.Ops[i].K, n)
		}
	}

	handled := false
	for _, e := range r.World.Trace() {
		handled = handled || e.Kind == sim.Call && e.Method == "HandleTimeout" && r.Ops[e.Op].K == "tick"
	}
	st.ClassIf(handled, "timeout handled by advancing time")
	st.NonTrivial(handled && advanced >= 2)

	return checkTimeouts(r.Model(), r.World.Trace(), st)
}

func p22DrawTime(t *rapid.T) *p22Time {
	x := &p22Time{
		S:    sim.Pick(t, []int64{-62135596800, -1, 0, 1, 1000, 1700000000, 1700000001, 1772873200, 1772953199, 4000000000, 250000000000}),
		N:    sim.Pick(t, []int64{0, 0, 1, 999999999, 500000000, 1000000}),
		Zone: sim.Pick(t, []int{0, 0, 600, -330, 1, newYork, newYork}),
	}
	return x
}

func p22DrawExact(t *rapid.T) *p22Exact {
	c := &p22Exact{}
	if !sim.OneIn(t, 4) {
		c.Start = p22DrawTime(t)
		c.Start.Mono = c.Start.S >= 0 && c.Start.S <= 4000000000 && sim.OneIn(t, 4)
	}
	for range sim.Count(t, 1, 8, 30) {
		op := &p22Op{
			K:    sim.Pick(t, []string{"command", "call", "by", "by", "to", "to", "adjust", "adjust-by"}),
			Zone: sim.Pick(t, []int{0, 0, 600, -330, newYork}),
			E:    rapid.Bool().Draw(t, "expect"),
		}
		switch op.K {
		case "by", "adjust-by":
			op.D = sim.Pick(t, []int64{0, 1, 999, 1000000, 1000000000, 3600e9, 86400e9, 86400e9, 7 * 86400e9, 1<<63 - 1, 3e15})
			if op.K == "adjust-by" && rapid.Bool().Draw(t, "back") {
				op.D = -op.D
			}
		case "to", "adjust":
			if !sim.OneIn(t, 3) {
				op.T = p22DrawTime(t)
			} else {
				// Relative to the current time.
				op.D = sim.Pick(t, []int64{-1000000000, -1, 0, 0, 0, 1, 86400e9})
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type exactAdjustment struct {
	fn func(time.Time) time.Time
}

func (a exactAdjustment) Description() string        { return "by some rule" }
func (a exactAdjustment) Step(t time.Time) time.Time { return a.fn(t) }

// p22Observer records the times of cycles.
type p22Observer struct {
	times []time.Time
	ticks []bool
}

func (o *p22Observer) Notify(f fact.Fact) {
	switch f := f.(type) {
	case fact.DispatchCycleBegun:
		o.times = append(o.times, f.EngineTime)
		o.ticks = append(o.ticks, false)
	case fact.TickCycleBegun:
		o.times = append(o.times, f.EngineTime)
		o.ticks = append(o.ticks, true)
	}
}

func (c *p22Exact) judge(st *prop.Stats) error {
	var (
		t     = &tk.T{}
		o     = &p22Observer{}
		opts  = []testkit.TestOption{testkit.WithUnsafeOperationOptions(engine.WithObserver(o))}
		clock time.Time
	)
	if c.Start != nil {
		clock = c.Start.Time()
		opts = append(opts, testkit.StartTimeAt(clock))
	}
	low := time.Now()
	test := testkit.Begin(t, tk.RichApp{}, opts...)
	high := time.Now()

	if c.Start == nil {
		// Find out what the time is.
		st.Class("starts at system time")
		test.Prepare(testkit.ExecuteCommand(tk.NewPerform()))
		if len(o.times) != 1 {
			return fmt.Errorf("%d cycles were performed for one command", len(o.times))
		}
		clock = o.times[0]
		if clock.Before(low) || clock.After(high) {
			return fmt.Errorf("the test starts at %s, which is not between %s and %s", clock, low, high)
		}
	}

	advanced, refused := 0, false
	for i, op := range c.Ops {
		o.times, o.ticks = nil, nil
		zone := p22Zone(op.Zone)
		var (
			want   = clock
			act    testkit.Action
			tick   = true
			seen   []time.Time
			target = clock.In(zone).Add(time.Duration(op.D))
		)
		if op.T != nil {
			target = op.T.Time()
		}
		switch op.K {
		case "command":
			act = testkit.ExecuteCommand(tk.NewPerform())
			tick = false
		case "call":
			act = testkit.Call(func() {
				if err := test.CommandExecutor().ExecuteCommand(context.Background(), tk.NewPerform()); err != nil {
					panic(err)
				}
			})
			tick = false
		case "by":
			act = testkit.AdvanceTime(testkit.ByDuration(time.Duration(op.D)))
			want = clock.Add(time.Duration(op.D))
		case "to":
			act = testkit.AdvanceTime(testkit.ToTime(target))
			want = target
		case "adjust":
			act = testkit.AdvanceTime(exactAdjustment{func(now time.Time) time.Time {
				seen = append(seen, now)
				return target
			}})
			want = target
		case "adjust-by":
			act = testkit.AdvanceTime(exactAdjustment{func(now time.Time) time.Time {
				seen = append(seen, now)
				return now.Add(time.Duration(op.D))
			}})
			want = clock.Add(time.Duration(op.D))
		}

		t.SetStep(i)
		res := sim.Capture(func() error {
			if op.E {
				test.Expect(act, testkit.ToSatisfy("pass", func(*testkit.SatisfyT) {}))
			} else {
				test.Prepare(act)
			}
			return nil
		})
		stopped := false
		if res.Panicked {
			if _, stopped = res.Panic.(tk.Abort); !stopped {
				return fmt.Errorf("operation %d panicked: %v", i, res.Panic)
			}
		}
		for _, s := range seen {
			if !s.Equal(clock) {
				return fmt.Errorf("operation %d: the adjustment is given the time %s, expected %s", i, s, clock)
			}
		}
		if want.Before(clock) {
			if !stopped {
				return fmt.Errorf("operation %d moves the clock from %s back to %s, but does not fail", i, clock, want)
			}
			if len(o.times) != 0 {
				return fmt.Errorf("operation %d fails, but uses the engine", i)
			}
			st.Class("exact: refused")
			refused = refused || advanced > 0
			continue
		}
		if stopped {
			return fmt.Errorf("operation %d, which moves the clock from %s to %s, fails: %s", i, clock, want, t.Calls(i)[len(t.Calls(i))-1].Text)
		}
		if len(o.times) != 1 || o.ticks[0] != tick {
			return fmt.Errorf("operation %d performs %d cycles (ticks: %v)", i, len(o.times), o.ticks)
		}
		if !o.times[0].Equal(want) {
			return fmt.Errorf("operation %d (%s) is performed at %s, expected %s", i, op.K, o.times[0], want)
		}
		if tick {
			st.ClassIf(want.Equal(clock), "exact: unchanged")
			advanced++
			if refused {
				st.NonTrivial(true)
			}
		}
		clock = want
	}
	return nil
}
