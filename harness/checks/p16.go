package checks

import (
	"errors"
	"fmt"
	"maps"
	"math"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

type p16Case struct {
	// Interval is the tick interval, in microseconds.
	Interval int

	// Scaled is true if RunTimeScaled() is used.
	Scaled bool    `json:",omitempty"`
	Factor float64 `json:",omitempty"`

	// Epoch is the epoch in milliseconds, nil if none is given.
	Epoch  *int64 `json:",omitempty"`
	Nanos  int64  `json:",omitempty"` // added to the epoch
	Offset int    `json:",omitempty"` // UTC offset in hours
	Stop   string // how to end the run
	After  int    // number of the tick at which the run ends
	Ctx    string `json:",omitempty"` // kind of context

	Opts []sim.Opt `json:",omitempty"`
}

func init() {
	prop.Register("P16", prop.Options{
		Rule: "A case is a kind of context, tick interval, scale factor, epoch, handler options and the number of the tick during or after which the run is ended by a cancellation or an error. " +
			"It is non-trivial if there are at least two ticks.",
		Quick:    16000,
		Thorough: 120000,
		Assumptions: []string{
			"The bounds on engine times use the monotonic clock of the system and hold regardless of load. The upper bound on the time between ticks is only violated if it is in five consecutive attempts.",
		},
	}, func(t *rapid.T) *p16Case {
		c := &p16Case{
			Interval: sim.Pick(t, []int{1, 100, 500, 1000, 2000, 3000, 5000}),
			Scaled:   !sim.OneIn(t, 4),
			Stop:     sim.Pick(t, []string{"observer", "handler", "between", "error", "error"}),
			After:    sim.Int(t, 1, 6),
			Ctx:      sim.Pick(t, sim.Contexts),
		}
		if c.Scaled {
			c.Factor = sim.Pick(t, []float64{0, 0.001, 0.5, 1, 1, 2, 3.5, 10, 3600, 1000000})
			if !sim.OneIn(t, 3) {
				e := sim.Pick(t, []int64{-62135596800000, -1000000000000, 0, 0, 1, 86400000, 981173106000, 4102444800000, 250000000000000})
				c.Epoch = &e
				c.Nanos = sim.Pick(t, []int64{0, 0, 1, 999999, 500})
				c.Offset = sim.Int(t, -12, 14)
				if e == -62135596800000 && c.Nanos == 0 {
					// The zero time means that there is no epoch.
					c.Nanos = 1
				}
			}
		}
		switch {
		case sim.OneIn(t, 40):
			// Use the default interval.
			c.Interval = 0
			c.After = min(c.After, 2)
		case sim.OneIn(t, 10):
			// Use an interval that is far longer than the case takes.
			c.Interval = 3000000
			c.After = 1
		}
		for range sim.Int(t, 0, 3) {
			o := sim.Opt{On: rapid.Bool().Draw(t, "on")}
			if rapid.Bool().Draw(t, "type") {
				o.Type = sim.Pick(t, []string{sim.Aggregate, sim.Integration})
			} else {
				o.Name = "integration"
			}
			c.Opts = append(c.Opts, o)
		}
		return c
	}, func(cp **p16Case, st *prop.Stats) error {
		var err error
		for range 5 {
			var late bool
			late, err = runContinuously(*cp, st)
			if !late {
				return err
			}
		}
		return err
	})
}

// tickRecord is what was observed of one tick.
type tickRecord struct {
	begun, completed time.Time
	fact             fact.TickCycleBegun
	err              error
}

// runContinuously runs an engine as described by c. It returns true if the
// error may be caused by the system being slow.
func runContinuously(c *p16Case, st *prop.Stats) (late bool, _ error) {
	// The process has a pending timeout, the handling of which fails or cancels
	// the context.
	app := &sim.App{Handlers: []*sim.Handler{
		{Name: "process", Type: sim.Process, Consumes: []string{"E0"}, Produces: []string{"C0"}, Timeouts: []string{"T0"}},
		{Name: "integration", Type: sim.Integration, Consumes: []string{"C0"}},
	}}

	var (
		m      sync.Mutex
		ticks  []*tickRecord
		second []fact.Fact
		failed error
	)

	ctx, cancel := sim.NewContext(c.Ctx)
	defer cancel()
	var endless atomic.Bool
	guard := time.AfterFunc(55*time.Second, func() {
		endless.Store(true)
		cancel()
	})
	defer guard.Stop()

	w := sim.NewEngine(app)
	w.SetCancel(cancel)
	w.Begin(0)

	opts := []engine.OperationOption{
		engine.WithObserver(w),
		engine.WithObserver(fact.ObserverFunc(func(f fact.Fact) {
			m.Lock()
			defer m.Unlock()
			switch f := f.(type) {
			case fact.TickCycleBegun:
				ticks = append(ticks, &tickRecord{begun: time.Now(), fact: f})
				if len(ticks) == c.After {
					switch c.Stop {
					case "observer":
						cancel()
					case "between":
						go func() {
							time.Sleep(time.Millisecond)
							cancel()
						}()
					}
				}
			case fact.TickCycleCompleted:
				if len(ticks) > 0 {
					r := ticks[len(ticks)-1]
					r.completed = time.Now()
					r.err = f.Error
				}
			case fact.HandlingCompleted:
				failed = f.Error
			}
		})),
	}
	for _, o := range c.Opts {
		opts = append(opts, o.Option())
	}
	opts = append(opts, engine.WithObserver(fact.ObserverFunc(func(f fact.Fact) {
		if _, ok := f.(fact.TickCycleBegun); ok {
			second = append(second, f)
		}
	})))

	var epoch time.Time
	if c.Epoch != nil {
		st.ClassIf(*c.Epoch == 0, "epoch is the Unix epoch")
		epoch = time.UnixMilli(*c.Epoch).Add(time.Duration(c.Nanos)).In(time.FixedZone("", c.Offset*3600))
	}

	interval := time.Duration(c.Interval) * time.Microsecond

	// Schedule a timeout that stops the run.
	if c.Stop == "handler" || c.Stop == "error" {
		base := epoch
		if base.IsZero() {
			base = time.Now()
		}
		factor := 1.0
		if c.Scaled {
			factor = c.Factor
		}
		due := base
		if c.After > 1 {
			due = base.Add(time.Duration(factor * float64(interval) * (float64(c.After) - 1.5)))
		}

		timeout := &sim.Msg{T: "T0", K: 2, I: "a", Do: map[string][]sim.Op{"process": {{K: sim.Cancel}}}}
		if c.Stop == "error" {
			timeout.Do["process"] = []sim.Op{{K: sim.Fail, S: "<handler error>"}}
		}
		event := &sim.Msg{T: "E0", K: 1, I: "a", Do: map[string][]sim.Op{
			"process": {{K: sim.Schedule, M: timeout, Time: &due}},
		}}
		if err := w.Engine.Dispatch(ctx, event.Message(), engine.WithCurrentTime(time.Time{})); err != nil {
			return false, err
		}
	}

	start := time.Now()
	res := sim.Capture(func() error {
		if c.Scaled {
			return engine.RunTimeScaled(ctx, w.Engine, interval, c.Factor, epoch, opts...)
		}
		return engine.Run(ctx, w.Engine, interval, opts...)
	})
	returned := time.Now()

	m.Lock()
	defer m.Unlock()

	if res.Panicked {
		return false, fmt.Errorf("panicked: %v", res.Panic)
	}
	if res.Err == nil {
		return false, fmt.Errorf("returned without an error")
	}
	if len(ticks) == 0 {
		return true, fmt.Errorf("returned %q without performing a tick", res.Err)
	}
	st.NonTrivial(len(ticks) >= 2)
	st.Class("ended by " + c.Stop)

	if endless.Load() {
		return true, fmt.Errorf("did not end, performed %d ticks", len(ticks))
	}

	last := ticks[len(ticks)-1]
	switch c.Stop {
	case "observer":
		if len(ticks) != c.After {
			return false, fmt.Errorf("performed %d ticks, but the context was cancelled during tick %d", len(ticks), c.After)
		}
		fallthrough
	case "handler", "between":
		if !errors.Is(res.Err, ctx.Err()) {
			return false, fmt.Errorf("returned %q, expected the context's error", res.Err)
		}
	case "error":
		if failed == nil {
			return false, fmt.Errorf("returned %q before the error occurred", res.Err)
		}
		if !errors.Is(res.Err, failed) {
			return false, fmt.Errorf("returned %q, expected an error that contains %q", res.Err, failed)
		}
		if last.err == nil || res.Err != last.err {
			return false, fmt.Errorf("returned %q, expected the error of the last tick, %v", res.Err, last.err)
		}
	}

	for i, r := range ticks {
		if r.completed.IsZero() {
			return false, fmt.Errorf("tick %d was not completed", i+1)
		}
		if i < len(ticks)-1 && r.err != nil {
			return false, fmt.Errorf("tick %d failed with %q, but further ticks were performed", i+1, r.err)
		}
	}

	// Verify the options.
	types := map[configkit.HandlerType]bool{
		configkit.AggregateHandlerType:   true,
		configkit.ProcessHandlerType:     true,
		configkit.IntegrationHandlerType: true,
		configkit.ProjectionHandlerType:  true,
	}
	handlers := map[string]bool{}
	for _, o := range c.Opts {
		if o.Type != "" {
			types[configkit.HandlerType(o.Type)] = o.On
		} else {
			handlers[o.Name] = o.On
		}
	}
	for i, r := range ticks {
		if !maps.Equal(r.fact.EnabledHandlerTypes, types) || !maps.Equal(r.fact.EnabledHandlers, handlers) {
			return false, fmt.Errorf("tick %d was performed with different options", i+1)
		}
	}
	if len(second) != len(ticks) {
		return false, fmt.Errorf("the second observer was notified of %d ticks, the first of %d", len(second), len(ticks))
	}

	// Verify the engine times.
	factor := 1.0
	if c.Scaled {
		factor = c.Factor
	}
	expected := interval
	if expected == 0 {
		expected = engine.DefaultTickInterval
		st.Class("default interval")
	}
	scale := func(d time.Duration) float64 { return float64(d) * factor }
	tolerance := func(x float64) float64 { return 10 + math.Abs(x)*1e-9 }

	for i, r := range ticks {
		// The run is known to have begun between start and the first tick.
		var min time.Duration
		if i > 0 {
			min = ticks[i-1].begun.Sub(ticks[0].begun) + expected
		}
		max := r.begun.Sub(start)

		now := r.fact.EngineTime
		if epoch.IsZero() {
			// The epoch itself is between start and the first tick.
			lo := start.Add(time.Duration(scale(min) - tolerance(scale(min))))
			hi := ticks[0].begun.Add(time.Duration(scale(max) + tolerance(scale(max))))
			if now.Before(lo) || now.After(hi) {
				return false, fmt.Errorf("tick %d is at engine time %s, expected %s to %s", i+1, now, lo, hi)
			}
			st.Class("epoch is the current time")
			continue
		}

		got := float64(now.Sub(epoch))
		if got < scale(min)-tolerance(scale(min)) || got > scale(max)+tolerance(scale(max)) {
			return false, fmt.Errorf(
				"tick %d is at engine time %s, %s after the epoch, but between %s and %s of real time have elapsed (scaled by %v)",
				i+1, now, time.Duration(got), min, max, factor,
			)
		}
	}

	// Verify that ticks do not occur later than they should.
	slack := 150 * time.Millisecond
	if d := ticks[0].begun.Sub(start); d > slack {
		return true, fmt.Errorf("the first tick occurred after %s", d)
	}
	var shortest time.Duration
	for i := 1; i < len(ticks); i++ {
		if d := ticks[i].begun.Sub(ticks[i-1].completed); i == 1 || d < shortest {
			shortest = d
		}
	}
	if shortest > expected+slack {
		return true, fmt.Errorf("at least %s elapsed between any two ticks, expected %s", shortest, expected)
	}
	limit := last.completed.Add(slack)
	if c.Stop == "between" {
		limit = limit.Add(slack)
	}
	if returned.After(limit) {
		return true, fmt.Errorf("returned %s after the last tick", returned.Sub(last.completed))
	}

	return false, nil
}
