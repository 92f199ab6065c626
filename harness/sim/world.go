package sim

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// Epoch is the time from which all times in cases are relative.
var Epoch = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)

// At returns the time that corresponds to the offset n.
//
// The offset is the number of seconds since the epoch multiplied by 1000, plus
// a number of nanoseconds between -500 and +499. Offsets are ordered in the
// same way as the times, and are added in the same way as durations as long as
// there are few nanoseconds. The times are in various time zones.
func At(n int64) time.Time {
	s, ns := split(n)
	return time.Unix(Epoch.Unix()+s, ns).In(zones[(s%3+3)%3])
}

// zones are the zones of the times returned by At().
var zones = []*time.Location{
	time.UTC,
	time.FixedZone("east", 5*3600+1800),
	time.FixedZone("west", -7*3600),
}

// Duration returns the duration that corresponds to the offset n.
func Duration(n int64) time.Duration {
	s, ns := split(n)
	return time.Duration(s)*time.Second + time.Duration(ns)
}

func split(n int64) (s, ns int64) {
	s = (n + 500) / 1000
	if (n+500)%1000 < 0 {
		s--
	}
	return s, n - s*1000
}

// EntryKind is the kind of a trace entry.
type EntryKind string

// The kinds of trace entries.
const (
	Call    EntryKind = "call"   // a method of a handler was called
	Return  EntryKind = "return" // a method of a handler returned
	Thrown  EntryKind = "thrown" // a method of a handler panicked
	Done    EntryKind = "done"   // a handler performed an operation on its scope
	Applied EntryKind = "applied"
	Unread  EntryKind = "unread" // a root panicked while an instance was loaded
	Fact    EntryKind = "fact"
	Reset   EntryKind = "reset"
)

// Entry is an entry in the trace of everything that happens to an application.
type Entry struct {
	Seq  int
	Kind EntryKind

	// Op is the index of the engine operation.
	Op int

	// Call identifies the call to the handler.
	Call int

	H      string // name of the handler
	Method string
	M      *Msg   // message being handled
	Inst   string // instance ID, according to the scope
	RootID int    // identity of the root
	Root   []int  // content of the root

	Do Op // what was done

	Time time.Time // RecordedAt(), ScheduledFor() or Now()
	Err  error
	OK   bool
	ID   string // instance to which the message was routed

	Resource, Current, Next string

	// Ctx is the context given to the handler, if any, and CtxErr is its error
	// at the time.
	Ctx    context.Context
	CtxErr error

	// Primary is true if the delivery is a primary delivery, according to the
	// scope.
	Primary bool

	Fact fact.Fact
}

func (e *Entry) String() string {
	switch e.Kind {
	case Fact:
		return fmt.Sprintf("%d/%d fact %T", e.Op, e.Seq, e.Fact)
	case Done:
		return fmt.Sprintf("%d/%d %s %s.%s(%s) inst=%s do=%s %s", e.Op, e.Seq, e.Kind, e.H, e.Method, e.M.describe(), e.Inst, e.Do.K, e.Do.M.describe())
	default:
		return fmt.Sprintf("%d/%d %s %s.%s(%s) inst=%s root=%v err=%v", e.Op, e.Seq, e.Kind, e.H, e.Method, e.M.describe(), e.Inst, e.Root, e.Err)
	}
}

// EngineOp is an operation performed on the engine.
type EngineOp struct {
	K    string // "dispatch", "tick" or "reset"
	M    *Msg   `json:",omitempty"`
	Now  int64  `json:",omitempty"`
	Opts []Opt  `json:",omitempty"`
	Obs  int    `json:",omitempty"` // number of additional observers
	Ctx  string `json:",omitempty"` // kind of context
}

// Opt is an option that enables or disables handlers.
type Opt struct {
	Type string `json:",omitempty"`
	Name string `json:",omitempty"`
	On   bool   `json:",omitempty"`
}

// Option returns the engine option.
func (o Opt) Option() engine.OperationOption {
	switch o.Type {
	case Aggregate:
		return engine.EnableAggregates(o.On)
	case Process:
		return engine.EnableProcesses(o.On)
	case Integration:
		return engine.EnableIntegrations(o.On)
	case Projection:
		return engine.EnableProjections(o.On)
	}
	return engine.EnableHandler(o.Name, o.On)
}

// Enabled returns true if h is enabled under the given options, and the reason
// that it is not.
func Enabled(h *Handler, opts []Opt) (bool, fact.HandlerSkipReason) {
	en, found := true, false
	for _, o := range opts {
		if o.Type == "" && o.Name == h.Name {
			en, found = o.On, true
		}
	}
	if found {
		return en, fact.IndividualHandlerDisabled
	}
	if h.Disabled {
		return false, fact.IndividualHandlerDisabledByConfiguration
	}
	for _, o := range opts {
		if o.Type == h.Type {
			en = o.On
		}
	}
	return en, fact.HandlerTypeDisabled
}

// Result is the result of an operation.
type Result struct {
	Err      error
	CtxErr   error // error of the context of the operation when it ended
	Panicked bool
	Panic    any
}

// World is an instance of an application, the engine that executes it, and the
// trace of what happens.
type World struct {
	App    *App
	Config configkit.RichApplication
	Engine *engine.Engine

	m       sync.Mutex
	trace   []*Entry
	op      int
	calls   int
	roots   int
	counter map[string]int
	raised  []any
	cancel  context.CancelFunc

	// Busy is the number of handler methods being called right now.
	Busy atomic.Int32

	// Overlapped is set if two handler methods were called at the same time,
	// other than Compact().
	Overlapped atomic.Bool

	// Jitter enables yielding within observers.
	Jitter bool

	// InNotify is the number of notifications in progress.
	InNotify atomic.Int32

	// NotifyOverlapped is set if an observer was notified concurrently.
	NotifyOverlapped atomic.Bool

	// Hook, if non-nil, is called at the start of each call to a handler.
	Hook func(*Entry)

	// Silent disables recording of entries. As recording involves locking,
	// it may prevent the detection of data races. It must be set before any
	// operation is performed.
	Silent bool
}

// New returns a world for the given application, without an engine.
func New(app *App) *World {
	w := &World{
		App:     app,
		counter: map[string]int{},
		op:      -1,
	}
	w.Config = configkit.FromApplication(w.Application())
	return w
}

// NewEngine returns a world for the given application with an engine.
func NewEngine(app *App, opts ...engine.Option) *World {
	w := New(app)
	w.Engine = engine.MustNew(w.Config, opts...)
	return w
}

// Application returns the application.
func (w *World) Application() dogma.Application {
	return &application{w}
}

// Trace returns the trace so far.
func (w *World) Trace() []*Entry {
	w.m.Lock()
	defer w.m.Unlock()
	return append([]*Entry(nil), w.trace...)
}

// TraceOf returns the trace of one operation.
func (w *World) TraceOf(op int) []*Entry {
	w.m.Lock()
	defer w.m.Unlock()
	var res []*Entry
	for _, e := range w.trace {
		if e.Op == op {
			res = append(res, e)
		}
	}
	return res
}

// Len returns the length of the trace.
func (w *World) Len() int {
	w.m.Lock()
	defer w.m.Unlock()
	return len(w.trace)
}

// Raised returns the panic values raised by handlers.
func (w *World) Raised() []any {
	w.m.Lock()
	defer w.m.Unlock()
	return append([]any(nil), w.raised...)
}

// Begin marks the start of operation n.
func (w *World) Begin(n int) {
	w.m.Lock()
	defer w.m.Unlock()
	w.op = n
}

// SetCancel sets the function called by the Cancel operation.
func (w *World) SetCancel(fn context.CancelFunc) {
	w.m.Lock()
	defer w.m.Unlock()
	w.cancel = fn
}

func (w *World) record(e *Entry) *Entry {
	if w.Silent {
		return e
	}
	w.m.Lock()
	defer w.m.Unlock()
	e.Seq = len(w.trace)
	if e.Op == 0 {
		e.Op = w.op
	}
	w.trace = append(w.trace, e)
	return e
}

func (w *World) nextCall() int {
	w.m.Lock()
	defer w.m.Unlock()
	w.calls++
	return w.calls
}

func (w *World) nextRoot() int {
	if w.Silent {
		return 0
	}
	w.m.Lock()
	defer w.m.Unlock()
	w.roots++
	return w.roots
}

func (w *World) count(k string) int {
	w.m.Lock()
	defer w.m.Unlock()
	n := w.counter[k]
	w.counter[k]++
	return n
}

// ResetCounters restarts the sequences of scripted outcomes.
func (w *World) ResetCounters() {
	w.m.Lock()
	defer w.m.Unlock()
	w.counter = map[string]int{}
}

// Notify records a fact.
func (w *World) Notify(f fact.Fact) {
	if w.InNotify.Add(1) != 1 {
		w.NotifyOverlapped.Store(true)
	}
	if w.Jitter {
		for i := 0; i < 3; i++ {
			runtime.Gosched()
		}
	}
	w.record(&Entry{Kind: Fact, Fact: f})
	w.InNotify.Add(-1)
}

// Observer returns an observer that attributes facts to operation n, which must
// not be zero.
func (w *World) Observer(n int) fact.Observer {
	return fact.ObserverFunc(func(f fact.Fact) {
		if w.Jitter {
			runtime.Gosched()
		}
		w.record(&Entry{Kind: Fact, Op: n, Fact: f})
	})
}

// RecordReset records that the engine was reset.
func (w *World) RecordReset() {
	w.record(&Entry{Kind: Reset})
}

// opTimeout is far longer than any operation takes. It bounds the damage done
// by an operation that waits for something that never happens.
const opTimeout = 60 * time.Second

// Run performs an operation on the engine.
func (w *World) Run(n int, op *EngineOp, extra ...engine.OperationOption) Result {
	ctx, cancel := NewContext(op.Ctx)
	defer cancel()
	w.SetCancel(cancel)
	res := w.RunContext(ctx, n, op, extra...)
	res.CtxErr = ctx.Err()
	return res
}

// RunContext performs an operation on the engine.
func (w *World) RunContext(ctx context.Context, n int, op *EngineOp, extra ...engine.OperationOption) (res Result) {
	w.Begin(n)
	return w.Perform(ctx, op, extra...)
}

// Perform performs an operation on the engine, without marking its beginning.
func (w *World) Perform(ctx context.Context, op *EngineOp, extra ...engine.OperationOption) (res Result) {
	opts := []engine.OperationOption{
		engine.WithCurrentTime(At(op.Now)),
		engine.WithObserver(w),
	}
	for _, o := range op.Opts {
		opts = append(opts, o.Option())
	}
	opts = append(opts, extra...)

	return Capture(func() error {
		switch op.K {
		case "dispatch":
			return w.Engine.Dispatch(ctx, op.M.Message(), opts...)
		case "tick":
			return w.Engine.Tick(ctx, opts...)
		case "reset":
			w.Engine.Reset()
			w.record(&Entry{Kind: Reset})
			return nil
		}
		panic("unknown operation " + op.K)
	})
}

// Capture calls fn and returns its result, including the panic value if it
// panics.
func Capture(fn func() error) (res Result) {
	res.Panicked = true
	defer func() {
		if res.Panicked {
			res.Panic = recover()
		}
	}()
	res.Err = fn()
	res.Panicked = false
	return res
}
