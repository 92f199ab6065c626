package checks

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"unsafe"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

type p15Case struct {
	App *sim.App

	// Threads are the operations performed by each goroutine.
	Threads [][]*sim.EngineOp

	// Silent causes the calls to the handlers not to be recorded, because doing
	// so hides data races.
	Silent bool `json:",omitempty"`

	// Buffer is true if the operations share a buffer.
	Buffer bool `json:",omitempty"`

	// Jitter is true if observers yield.
	Jitter bool `json:",omitempty"`

	// Start is the number of times each goroutine yields before it begins.
	Start []int
}

func init() {
	prop.Register("P15", prop.Options{
		Rule: "A case is an application and 2 to 6 goroutines that each perform up to 4 dispatches, ticks and resets on one engine, with yields within handlers and observers. " +
			"It is non-trivial if the operations of at least two goroutines call handlers and the order in which they took effect is not that of the goroutines.",
		Quick:    24000,
		Thorough: 400000,
		Race:     true,
		Repeat:   2,
	}, func(t *rapid.T) *p15Case {
		g := sim.Gen{
			Max:          map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 1, sim.Projection: 1},
			MaxMessages:  6,
			NumInstances: 2,
			Times:        []int64{0, 1000, 2000, 3000},
			Schedule:     2,
			Ops:          []string{sim.Yield, sim.Yield, sim.Yield, sim.Destroy, sim.End},
		}.Defaults()
		c := &p15Case{App: g.App(t)}
		kinds := []string{"dispatch", "dispatch", "dispatch", "dispatch", "tick"}
		if sim.OneIn(t, 3) {
			kinds = append(kinds, "reset")
		}
		next := 1
		for range sim.Int(t, 2, 6) {
			ops := g.History(t, c.App, 1, 4, kinds, 8)
			for _, op := range ops {
				if op.M != nil {
					sim.AssignKeys(&next, op.M)
				}
			}
			c.Threads = append(c.Threads, ops)
			c.Start = append(c.Start, sim.Int(t, 0, 20))
		}
		c.Silent = sim.OneIn(t, 3)
		c.Buffer = rapid.Bool().Draw(t, "buffer")
		c.Jitter = rapid.Bool().Draw(t, "jitter")
		return c
	}, func(cp **p15Case, st *prop.Stats) error {
		c := *cp
		prop.Races()
		err := runConcurrently(c, st)
		if r := prop.Races(); r != "" {
			return fmt.Errorf("data race:\n%s", r)
		}
		return err
	})
}

// runConcurrently runs the goroutines in c and verifies the result.
func runConcurrently(c *p15Case, st *prop.Stats) error {
	var (
		w   *sim.World
		buf = &fact.Buffer{}
		wg  sync.WaitGroup

		all     = map[int]*sim.EngineOp{}
		results = map[int]*sim.Result{}
		begin   = make(chan struct{})
		shots   []snapshot
		stop    = make(chan struct{})
		stopped = make(chan struct{})
	)

	w = sim.NewEngine(
		c.App,
		engine.WithResetter(func() { w.RecordReset() }),
	)
	w.Silent = c.Silent
	w.Jitter = c.Jitter
	w.Begin(-1)

	options := func(n int, op *sim.EngineOp) []engine.OperationOption {
		opts := []engine.OperationOption{engine.WithCurrentTime(sim.At(op.Now))}
		if !c.Silent {
			opts = append(opts, engine.WithObserver(w.Observer(n)))
		}
		if c.Buffer {
			opts = append(opts, engine.WithObserver(buf))
		}
		for _, o := range op.Opts {
			opts = append(opts, o.Option())
		}
		return opts
	}

	perform := func(n int, op *sim.EngineOp) sim.Result {
		opts := options(n, op)
		return sim.Capture(func() error {
			switch {
			case op.K == "reset":
				w.Engine.Reset()
				return nil
			case op.K == "tick":
				return w.Engine.Tick(context.Background(), opts...)
			case op.M.T[0] == 'C' && op.M.K%2 == 0:
				x := engine.CommandExecutor{Engine: w.Engine, Options: opts}
				return x.ExecuteCommand(context.Background(), op.M.Message().(dogma.Command))
			default:
				return w.Engine.Dispatch(context.Background(), op.M.Message(), opts...)
			}
		})
	}

	n := 0
	for i, ops := range c.Threads {
		first := n + 1
		for _, op := range ops {
			n++
			all[n] = op
			results[n] = &sim.Result{}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for range c.Start[i] {
				runtime.Gosched()
			}
			for j, op := range ops {
				*results[first+j] = perform(first+j, op)
			}
		}()
	}

	if c.Buffer {
		go func() {
			defer close(stopped)
			<-begin
			for {
				if len(shots) < 10 {
					f := buf.Facts()
					shots = append(shots, snapshot{f, append([]fact.Fact(nil), f...)})
				}
				for range len(shots) * 10 {
					runtime.Gosched()
				}
				select {
				case <-stop:
					return
				default:
					runtime.Gosched()
				}
			}
		}()
	} else {
		close(stopped)
	}

	close(begin)
	wg.Wait()
	close(stop)
	<-stopped

	// Finally perform one more operation, that is certain to be the last one.
	last := &sim.EngineOp{K: "tick", Now: 1000000}
	n++
	all[n] = last
	res := perform(n, last)
	results[n] = &res

	for i, r := range results {
		if r.Panicked {
			return fmt.Errorf("operation %d panicked: %v", i, r.Panic)
		}
		if r.Err != nil {
			return fmt.Errorf("operation %d failed: %w", i, r.Err)
		}
	}

	if c.Buffer {
		if err := checkBuffer(buf.Facts(), shots, w, c.Silent); err != nil {
			return err
		}
	}

	if c.Silent {
		st.Class("only checked for data races")
		return nil
	}

	if w.Overlapped.Load() {
		return fmt.Errorf("two handlers were called at the same time\n%s", traceText(w.Trace(), -1))
	}

	return checkSerial(c, w, all, st)
}

type snapshot struct {
	returned []fact.Fact
	content  []fact.Fact
}

// sameFact returns true if a and b are equal.
func sameFact(a, b fact.Fact) bool {
	// Two copies of one interface value refer to the same memory.
	if *(*[2]uintptr)(unsafe.Pointer(&a)) == *(*[2]uintptr)(unsafe.Pointer(&b)) {
		return true
	}
	return reflect.DeepEqual(a, b)
}

// checkBuffer verifies the facts in a buffer shared by all operations.
func checkBuffer(final []fact.Fact, shots []snapshot, w *sim.World, silent bool) error {
	for _, s := range shots {
		if len(s.returned) > len(final) {
			return fmt.Errorf("a snapshot has %d facts, but there are %d in the end", len(s.returned), len(final))
		}
		for i := range s.returned {
			if !sameFact(s.returned[i], s.content[i]) {
				return fmt.Errorf("fact %d of a snapshot changed after it was taken", i)
			}
			if !sameFact(s.returned[i], final[i]) {
				return fmt.Errorf("fact %d of a snapshot is not that of the buffer", i)
			}
		}
	}

	if silent {
		return nil
	}

	count := map[string]int{}
	for _, f := range final {
		count[describeEntry(&sim.Entry{Kind: sim.Fact, Fact: f}, nil)]++
	}
	for _, e := range w.Trace() {
		if e.Kind == sim.Fact {
			count[describeEntry(e, nil)]--
		}
	}
	for f, n := range count {
		if n > 0 {
			return fmt.Errorf("the buffer has a fact %d more time(s) than it was announced: %s", n, f)
		}
		if n < 0 {
			return fmt.Errorf("the buffer lacks a fact that was announced: %s", f)
		}
	}
	return nil
}

// checkSerial verifies that the operations took effect one after another, in
// some order.
func checkSerial(c *p15Case, w *sim.World, all map[int]*sim.EngineOp, st *prop.Stats) error {
	var (
		serial  = &sim.Case{App: c.App}
		trace   []*sim.Entry
		index   = map[int]int{} // operation -> position in order
		current = -1
		resets  int
		order   []int
	)

	for _, e := range w.Trace() {
		x := *e
		switch e.Kind {
		case sim.Reset:
			resets++
			current = -1
			serial.Ops = append(serial.Ops, &sim.EngineOp{K: "reset"})
			x.Op = len(serial.Ops) - 1

		case sim.Fact:
			switch e.Fact.(type) {
			case fact.DispatchCycleBegun, fact.DispatchCycleCompleted,
				fact.TickCycleBegun, fact.TickCycleCompleted:
				// These occur before the engine is available, or after it has
				// become so.
				continue
			}
			if e.Op != current {
				if _, ok := index[e.Op]; ok {
					return fmt.Errorf("operation %d is interleaved with another\n%s", e.Op, traceText(w.Trace(), -1))
				}
				current = e.Op
				index[e.Op] = len(serial.Ops)
				order = append(order, e.Op)
				serial.Ops = append(serial.Ops, all[e.Op])
			}
			x.Op = index[current]

		default:
			if current < 0 {
				return fmt.Errorf("%s was called outside of any operation", e)
			}
			x.Op = index[current]
		}
		trace = append(trace, &x)
	}

	for i, op := range all {
		if op.K == "reset" {
			resets--
			continue
		}
		if _, ok := index[i]; !ok {
			return fmt.Errorf("operation %d (%s) never took effect", i, op.K)
		}
	}
	if resets != 0 {
		return fmt.Errorf("there were %d more resets than expected", resets)
	}

	s := &prop.Stats{}
	for _, err := range []error{
		checkDelivery(serial, trace, s),
		checkEnvelopes(serial, trace, s),
		checkAggregates(serial, trace, s),
		checkProcesses(serial, trace, nil, s),
		checkTimeouts(serial, trace, s),
	} {
		if err != nil {
			return fmt.Errorf("considering the operations to be performed in the order %v: %w", order, err)
		}
	}

	busy := 0
	for _, ops := range c.Threads {
		for _, op := range ops {
			if op.K == "dispatch" {
				busy++
				break
			}
		}
	}
	inOrder := true
	for i := range order {
		if i > 0 && order[i] < order[i-1] {
			inOrder = false
		}
	}
	st.ClassIf(!inOrder, "out of order")
	st.ClassIf(len(serial.Ops) >= 8, "8+ operations")
	st.NonTrivial(busy >= 2 && !inOrder)
	return nil
}
