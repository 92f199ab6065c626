package sim

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/dogmatiq/dogma"
)

type base struct {
	world *World
	spec  *Handler
	key   string
}

// Error is an error returned by a handler.
type Error struct {
	Text  string
	cause error
}

func (e *Error) Error() string { return e.Text }

// Unwrap returns the cause of the error, if any.
func (e *Error) Unwrap() error { return e.cause }

// sharedError is the one error with the text SharedError.
var sharedError = &Error{Text: SharedError}

// SharedError is the text of an error that is returned by several handlers.
const SharedError = "<shared error>"

// CanceledError is the prefix of texts of errors that claim to be the result of
// a cancelled context.
const CanceledError = "<canceled"

func errorOf(text string) *Error {
	if text == SharedError {
		return sharedError
	}
	e := &Error{Text: text}
	if strings.HasPrefix(text, CanceledError) {
		e.cause = context.Canceled
	}
	return e
}

// PanicValue is a panic value raised by a handler.
type PanicValue struct {
	Text string
}

// PanicStruct is the type of a nil pointer that is used as a panic value.
type PanicStruct struct{}

// PanicKinds is the kinds of panic value.
var PanicKinds = []string{"unexpected", "unexpected", "value", "string", "error", "slice", "runtime", "struct", "typed-nil", "int"}

// runtimeError returns the value of a panic that is caused by the runtime.
func runtimeError() (v any) {
	defer func() { v = recover() }()
	var m map[string]int
	m["key"]++
	return nil
}

// PanicSlice is a panic value that is not comparable.
type PanicSlice []string

// LogArgs returns n arguments for a log message.
func LogArgs(n int) []any {
	var args []any
	for i := range n {
		args = append(args, []any{0, nil, "50%", &logged}[i%4])
	}
	return args
}

// logged is referred to by arguments of log messages.
var logged = "text"

// PanicSlot returns a panic value of the given kind.
func (w *World) raise(kind string) {
	var v any
	switch kind {
	case "unexpected":
		v = dogma.UnexpectedMessage
	case "string":
		v = fmt.Sprintf("string panic %d", len(w.Raised()))
	case "error":
		v = &Error{Text: "error panic"}
	case "slice":
		v = PanicSlice{"slice panic", fmt.Sprint(len(w.Raised()))}
	case "runtime":
		v = runtimeError()
	case "struct":
		// It looks much like dogma.UnexpectedMessage.
		v = struct{}{}
	case "typed-nil":
		v = (*PanicStruct)(nil)
	case "int":
		v = 0
	default:
		v = &PanicValue{"value panic"}
	}
	w.m.Lock()
	w.raised = append(w.raised, v)
	w.m.Unlock()
	panic(v)
}

// call records a call to a method of a handler.
func (b *base) call(method string, m *Msg, e Entry, fn func(call int, ret *Entry)) {
	if b.world.Silent {
		fn(0, &Entry{})
		return
	}

	overlap := method != "Compact"
	if overlap {
		if b.world.Busy.Add(1) != 1 {
			b.world.Overlapped.Store(true)
		}
	}

	id := b.world.nextCall()
	e.Kind = Call
	e.Call = id
	e.H = b.spec.Name
	e.Method = method
	e.M = m
	if e.Ctx != nil {
		e.CtxErr = e.Ctx.Err()
	}
	b.world.record(&e)

	if b.world.Hook != nil {
		b.world.Hook(&e)
	}

	ret := e
	ret.Kind = Thrown
	defer func() {
		if ret.Ctx != nil {
			ret.CtxErr = ret.Ctx.Err()
		}
		b.world.record(&ret)
		if overlap {
			b.world.Busy.Add(-1)
		}
	}()

	fn(id, &ret)

	ret.Kind = Return
}

func (b *base) done(method string, call int, m *Msg, inst string, root func() (int, []int), op Op) {
	id, content := 0, []int(nil)
	if root != nil {
		id, content = root()
	}
	b.world.record(&Entry{
		Kind:   Done,
		Call:   call,
		H:      b.spec.Name,
		Method: method,
		M:      m,
		Inst:   inst,
		RootID: id,
		Root:   content,
		Do:     op,
	})
}

func (b *base) common(op Op) bool {
	switch op.K {
	case Panic:
		b.world.raise(op.S)
	case Cancel:
		b.world.m.Lock()
		c := b.world.cancel
		b.world.m.Unlock()
		if c != nil {
			c()
		}
	case Yield:
		for i := 0; i < op.N; i++ {
			runtime.Gosched()
		}
	default:
		return false
	}
	return true
}

func (b *base) nextOp(method string, ops []Op) Op {
	n := b.world.count(b.spec.Name + "/" + method)
	if len(ops) == 0 {
		return Op{}
	}
	op := ops[n%len(ops)]
	if op.K == Fail && op.S != SharedError {
		op.S = fmt.Sprintf("%s (call %d)>", strings.TrimSuffix(op.S, ">"), n)
	}
	return op
}

// AggregateHandler is an aggregate message handler that follows scripts.
type AggregateHandler struct {
	base
	nilRoot  bool
	handling atomic.Int32
}

// AggregateRoot is the root used by aggregate handlers.
type AggregateRoot struct {
	h       *AggregateHandler
	ID      int
	Applied []int
}

// ApplyEvent updates the root.
func (r *AggregateRoot) ApplyEvent(m dogma.Event) {
	x := Of(m)
	if op, ok := x.Find(ApplyScript, Panic); ok {
		r.h.world.raise(op.S)
	}
	if op, ok := x.Find(LoadScript, Panic); ok && r.h.handling.Load() == 0 {
		r.h.world.record(&Entry{
			Kind:   Unread,
			H:      r.h.spec.Name,
			Method: "ApplyEvent",
			M:      x,
			Do:     op,
		})
		r.h.world.raise(op.S)
	}
	r.Applied = append(r.Applied, x.K)
	r.h.world.record(&Entry{
		Kind:   Applied,
		H:      r.h.spec.Name,
		Method: "ApplyEvent",
		M:      x,
		RootID: r.ID,
		Root:   append([]int(nil), r.Applied...),
	})
}

func (r *AggregateRoot) snapshot() (int, []int) {
	return r.ID, append([]int(nil), r.Applied...)
}

// Configure configures the handler.
func (h *AggregateHandler) Configure(c dogma.AggregateConfigurer) {
	c.Identity(h.spec.Name, h.key)
	c.Routes(routes[dogma.AggregateRoute](h.spec)...)
	if h.spec.Disabled {
		c.Disable()
	}
}

// New returns a new root.
func (h *AggregateHandler) New() dogma.AggregateRoot {
	if h.nilRoot {
		h.nilRoot = false
		return nil
	}
	return &AggregateRoot{h: h, ID: h.world.nextRoot()}
}

// RouteCommandToInstance returns the ID of the instance that handles a command.
func (h *AggregateHandler) RouteCommandToInstance(m dogma.Command) (id string) {
	x := Of(m)
	h.call("RouteCommandToInstance", x, Entry{}, func(_ int, ret *Entry) {
		if op, ok := x.Find(h.spec.Name, RoutePanic); ok {
			ret.Do = op
			h.world.raise(op.S)
		}
		h.nilRoot = x.Has(h.spec.Name, NilRoot)
		if !x.Has(h.spec.Name, RouteEmpty) {
			id = x.I
		}
		ret.ID = id
	})
	return id
}

// HandleCommand handles a command.
func (h *AggregateHandler) HandleCommand(r dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
	x := Of(m)
	root := r.(*AggregateRoot)
	rid, content := root.snapshot()

	h.handling.Add(1)
	defer h.handling.Add(-1)

	h.call(
		"HandleCommand",
		x,
		Entry{Inst: s.InstanceID(), RootID: rid, Root: content},
		func(call int, ret *Entry) {
			defer func() { ret.RootID, ret.Root = root.snapshot() }()

			for _, op := range x.Do[h.spec.Name] {
				ret.Do = op
				if h.common(op) {
					continue
				}
				switch op.K {
				case Record:
					s.RecordEvent(op.M.Event())
				case Destroy:
					s.Destroy()
				case Log:
					s.Log(op.S, LogArgs(op.N)...)
				default:
					continue
				}
				h.done("HandleCommand", call, x, s.InstanceID(), root.snapshot, op)
			}
		},
	)
}

// ProcessHandler is a process message handler that follows scripts.
type ProcessHandler struct {
	base
	nilRoot bool
}

// ProcessRoot is the root used by process handlers.
type ProcessRoot struct {
	ID   int
	Seen []int
}

// ProcessMap is a root that contains another.
type ProcessMap map[string]*ProcessRoot

// ProcessRootOf returns the content of a root. It returns nil if r is stateless.
func ProcessRootOf(r dogma.ProcessRoot) *ProcessRoot {
	switch r := r.(type) {
	case *ProcessRoot:
		return r
	case ProcessMap:
		return r["root"]
	default:
		return nil
	}
}

func (r *ProcessRoot) snapshot() (int, []int) {
	if r == nil {
		return 0, nil
	}
	return r.ID, append([]int(nil), r.Seen...)
}

// Configure configures the handler.
func (h *ProcessHandler) Configure(c dogma.ProcessConfigurer) {
	c.Identity(h.spec.Name, h.key)
	c.Routes(routes[dogma.ProcessRoute](h.spec)...)
	if h.spec.Disabled {
		c.Disable()
	}
}

// New returns a new root.
func (h *ProcessHandler) New() dogma.ProcessRoot {
	if h.nilRoot {
		h.nilRoot = false
		return nil
	}
	if h.spec.Root == "stateless" {
		return dogma.StatelessProcessRoot
	}
	r := &ProcessRoot{ID: h.world.nextRoot()}
	if h.spec.Root == "map" {
		return ProcessMap{"root": r}
	}
	return r
}

// RouteEventToInstance returns the ID of the instance that handles an event.
func (h *ProcessHandler) RouteEventToInstance(ctx context.Context, m dogma.Event) (id string, ok bool, err error) {
	x := Of(m)
	h.call("RouteEventToInstance", x, Entry{Ctx: ctx}, func(_ int, ret *Entry) {
		if op, ok := x.Find(h.spec.Name, RoutePanic); ok {
			ret.Do = op
			h.world.raise(op.S)
		}
		h.nilRoot = x.Has(h.spec.Name, NilRoot)

		if op, has := x.Find(h.spec.Name, RouteFail); has {
			err = errorOf(op.S)
		} else if x.Has(h.spec.Name, RouteEmpty) {
			ok = true
		} else if !x.Has(h.spec.Name, RouteIgnore) {
			id, ok = x.I, true
		}

		ret.ID = id
		ret.OK = ok
		ret.Err = err
	})
	return id, ok, err
}

type processScope interface {
	InstanceID() string
	End()
	ExecuteCommand(dogma.Command)
	ScheduleTimeout(dogma.Timeout, time.Time)
	Log(format string, args ...any)
}

// HandleEvent handles an event.
func (h *ProcessHandler) HandleEvent(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
	return h.handle(ctx, "HandleEvent", r, s, Of(m), s.RecordedAt())
}

// HandleTimeout handles a timeout.
func (h *ProcessHandler) HandleTimeout(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
	return h.handle(ctx, "HandleTimeout", r, s, Of(m), s.ScheduledFor())
}

func (h *ProcessHandler) handle(ctx context.Context, method string, r dogma.ProcessRoot, s processScope, x *Msg, t time.Time) (err error) {
	root := ProcessRootOf(r)
	rid, content := root.snapshot()

	h.call(
		method,
		x,
		Entry{Inst: s.InstanceID(), RootID: rid, Root: content, Time: t, Ctx: ctx},
		func(call int, ret *Entry) {
			defer func() { ret.RootID, ret.Root = root.snapshot() }()

			for _, op := range x.Do[h.spec.Name] {
				ret.Do = op
				if h.common(op) {
					continue
				}
				switch op.K {
				case Execute:
					s.ExecuteCommand(op.M.Command())
				case Schedule:
					at := At(op.At)
					if op.Time != nil {
						at = *op.Time
					}
					s.ScheduleTimeout(op.M.Timeout(), at)
				case End:
					s.End()
				case Log:
					s.Log(op.S, LogArgs(op.N)...)
				case Fail:
					err = errorOf(op.S)
					ret.Err = err
					return
				default:
					continue
				}
				h.done(method, call, x, s.InstanceID(), root.snapshot, op)
			}

			if root != nil {
				root.Seen = append(root.Seen, x.K)
			}
		},
	)

	return err
}

// IntegrationHandler is an integration message handler that follows scripts.
type IntegrationHandler struct {
	base
}

// Configure configures the handler.
func (h *IntegrationHandler) Configure(c dogma.IntegrationConfigurer) {
	c.Identity(h.spec.Name, h.key)
	c.Routes(routes[dogma.IntegrationRoute](h.spec)...)
	if h.spec.Disabled {
		c.Disable()
	}
}

// HandleCommand handles a command.
func (h *IntegrationHandler) HandleCommand(ctx context.Context, s dogma.IntegrationCommandScope, m dogma.Command) (err error) {
	x := Of(m)
	h.call("HandleCommand", x, Entry{Ctx: ctx}, func(call int, ret *Entry) {
		for _, op := range x.Do[h.spec.Name] {
			ret.Do = op
			if h.common(op) {
				continue
			}
			switch op.K {
			case Record:
				s.RecordEvent(op.M.Event())
			case Log:
				s.Log(op.S, LogArgs(op.N)...)
			case Fail:
				err = errorOf(op.S)
				ret.Err = err
				return
			default:
				continue
			}
			h.done("HandleCommand", call, x, "", nil, op)
		}
	})
	return err
}

// ProjectionHandler is a projection message handler that follows scripts.
type ProjectionHandler struct {
	base
}

// Configure configures the handler.
func (h *ProjectionHandler) Configure(c dogma.ProjectionConfigurer) {
	c.Identity(h.spec.Name, h.key)
	c.Routes(routes[dogma.ProjectionRoute](h.spec)...)
	if h.spec.Broadcast != 0 {
		c.DeliveryPolicy(dogma.BroadcastProjectionDeliveryPolicy{
			PrimaryFirst: h.spec.Broadcast == 2,
		})
	}
	if h.spec.Disabled {
		c.Disable()
	}
}

// HandleEvent applies an event.
func (h *ProjectionHandler) HandleEvent(ctx context.Context, r, c, n []byte, s dogma.ProjectionEventScope, m dogma.Event) (ok bool, err error) {
	x := Of(m)
	h.call(
		"HandleEvent",
		x,
		Entry{
			Time:     s.RecordedAt(),
			Resource: string(r),
			Current:  string(c),
			Next:     string(n),
			Ctx:      ctx,
			Primary:  s.IsPrimaryDelivery(),
		},
		func(call int, ret *Entry) {
			ok = true
			for _, op := range x.Do[h.spec.Name] {
				ret.Do = op
				if h.common(op) {
					continue
				}
				switch op.K {
				case Log:
					s.Log(op.S, LogArgs(op.N)...)
				case Conflict:
					ok = false
					continue
				case Fail:
					err = errorOf(op.S)
					ret.Err = err
					ret.OK = ok
					return
				default:
					continue
				}
				h.done("HandleEvent", call, x, "", nil, op)
			}
			ret.OK = ok
		},
	)
	return ok, err
}

// ResourceVersion returns the version of a resource.
func (h *ProjectionHandler) ResourceVersion(ctx context.Context, r []byte) (v []byte, err error) {
	h.call("ResourceVersion", nil, Entry{Resource: string(r), Ctx: ctx}, func(_ int, ret *Entry) {
		op := h.nextOp("ResourceVersion", h.spec.Version)
		ret.Do = op
		if h.common(op) {
			return
		}
		switch op.K {
		case Fail:
			err = errorOf(op.S)
			if op.N != 0 {
				v = []byte{byte(op.N)}
			}
		case Log:
			v = []byte(op.S)
		}
		ret.Err = err
		ret.Current = string(v)
	})
	return v, err
}

// CloseResource closes a resource.
func (h *ProjectionHandler) CloseResource(ctx context.Context, r []byte) (err error) {
	h.call("CloseResource", nil, Entry{Resource: string(r), Ctx: ctx}, func(_ int, ret *Entry) {
		op := h.nextOp("CloseResource", h.spec.Close)
		ret.Do = op
		if h.common(op) {
			return
		}
		if op.K == Fail {
			err = errorOf(op.S)
		}
		ret.Err = err
	})
	return err
}

// Compact compacts the projection.
func (h *ProjectionHandler) Compact(ctx context.Context, s dogma.ProjectionCompactScope) (err error) {
	h.call("Compact", nil, Entry{Time: s.Now(), Ctx: ctx}, func(call int, ret *Entry) {
		op := h.nextOp("Compact", h.spec.Compact)
		ret.Do = op
		if h.common(op) {
			return
		}
		switch op.K {
		case Fail:
			err = errorOf(op.S)
		case Log:
			for i := 0; i < max(1, op.N); i++ {
				s.Log(op.S, call, i)
				h.done("Compact", call, nil, "", nil, Op{K: Log, S: op.S, N: i})
				runtime.Gosched()
			}
		}
		ret.Err = err
	})
	return err
}
