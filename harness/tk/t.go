// Package tk contains what is needed to generate and judge complete tests that
// are written using testkit.
package tk

import (
	"fmt"
	"strings"
	"sync"

	"verif/harness/sim"
)

// TCall is a call to a method of T.
type TCall struct {
	Method string
	Text   string
	Args   []any

	// Step is the index of the step being performed.
	Step int

	// Seq is the length of the world's trace when the call was made.
	Seq int
}

// Abort is the panic value used to stop a test.
type Abort struct{}

// T is an implementation of testkit.TestingT that records the calls that it
// receives.
type T struct {
	World *sim.World

	m      sync.Mutex
	calls  []TCall
	failed bool
	step   int
}

func (t *T) add(method, text string, args []any) {
	n := 0
	if t.World != nil {
		n = t.World.Len()
	}
	t.m.Lock()
	defer t.m.Unlock()
	t.calls = append(t.calls, TCall{method, text, args, t.step, n})
}

// SetStep sets the index of the step being performed.
func (t *T) SetStep(n int) {
	t.m.Lock()
	defer t.m.Unlock()
	t.step = n
	t.failed = false
}

// Calls returns the calls made during a step, other than calls to Helper().
func (t *T) Calls(step int) []TCall {
	t.m.Lock()
	defer t.m.Unlock()
	var res []TCall
	for _, c := range t.calls {
		if c.Step == step {
			res = append(res, c)
		}
	}
	return res
}

// Failed returns true if the test is failed.
func (t *T) Failed() bool {
	t.m.Lock()
	defer t.m.Unlock()
	return t.failed
}

// Log records a log message.
func (t *T) Log(args ...any) {
	t.add("Log", strings.TrimSuffix(fmt.Sprintln(args...), "\n"), args)
}

// Logf records a log message.
func (t *T) Logf(f string, args ...any) {
	t.add("Log", fmt.Sprintf(f, args...), args)
}

// Fatal records a log message, marks the test as failed and stops it.
func (t *T) Fatal(args ...any) {
	t.add("Fatal", strings.TrimSuffix(fmt.Sprintln(args...), "\n"), args)
	t.m.Lock()
	t.failed = true
	t.m.Unlock()
	panic(Abort{})
}

// FailNow marks the test as failed and stops it.
func (t *T) FailNow() {
	t.add("FailNow", "", nil)
	t.m.Lock()
	t.failed = true
	t.m.Unlock()
	panic(Abort{})
}

// Helper does nothing.
func (t *T) Helper() {}
