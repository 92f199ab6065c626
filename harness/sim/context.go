package sim

import (
	"context"
	"errors"
	"sync"
	"time"
)

// The kinds of context.
const (
	CtxPlain    = ""         // a context that can be cancelled
	CtxCause    = "cause"    // a context that is cancelled with a cause
	CtxDeadline = "deadline" // a context that appears to exceed its deadline
	CtxCustom   = "custom"   // a context with an error of its own
)

// Contexts is the kinds of context.
var Contexts = []string{CtxPlain, CtxCause, CtxDeadline, CtxCustom}

var (
	// ContextCause is the cause of contexts that are cancelled with a cause.
	ContextCause = errors.New("<cause of cancellation>")

	// ContextError is the error of custom contexts that are cancelled.
	ContextError = errors.New("<custom context error>")
)

// NewContext returns a context of the given kind, and a function that cancels
// it.
func NewContext(kind string) (context.Context, context.CancelFunc) {
	switch kind {
	case CtxPlain:
		return context.WithTimeout(context.Background(), opTimeout)
	case CtxCause:
		ctx, cancel := context.WithCancelCause(context.Background())
		return ctx, func() { cancel(ContextCause) }
	}

	ctx := &customContext{
		Context: context.Background(),
		done:    make(chan struct{}),
	}
	err := ContextError
	if kind == CtxDeadline {
		ctx.deadline = time.Now().Add(opTimeout)
		err = context.DeadlineExceeded
	}
	return ctx, func() { ctx.cancel(err) }
}

type customContext struct {
	context.Context
	deadline time.Time
	done     chan struct{}

	m   sync.Mutex
	err error
}

func (c *customContext) Deadline() (time.Time, bool) {
	return c.deadline, !c.deadline.IsZero()
}

func (c *customContext) Done() <-chan struct{} {
	return c.done
}

func (c *customContext) Err() error {
	c.m.Lock()
	defer c.m.Unlock()
	return c.err
}

func (c *customContext) cancel(err error) {
	c.m.Lock()
	defer c.m.Unlock()
	if c.err == nil {
		c.err = err
		close(c.done)
	}
}
