// Package sim contains a scripted Dogma application. The messages that are sent
// to it carry the scripts that its handlers follow, so that an application's
// behavior is completely determined by generated data.
package sim

import (
	"errors"
	"fmt"
	"time"
	"unsafe"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
)

// Msg is the content of a message, which includes the scripts followed by the
// handlers of that message.
type Msg struct {
	// T is the message type, such as "C0", "E3" or "T1".
	T string

	// K is the key of the message, which is unique within a case.
	K int `json:",omitempty"`

	// I is the ID of the aggregate or process instance to which the message is
	// routed.
	I string `json:",omitempty"`

	// V is additional content, seen by nobody.
	V string `json:",omitempty"`

	// Anon is true if the message is indistinguishable, other than by its
	// identity, from other messages of the same type that are routed to the
	// same instance.
	Anon bool `json:",omitempty"`

	// Desc is the description of the message, if it is not nil.
	Desc *string `json:",omitempty"`

	// Shared is true if the message is used more than once within a case. See
	// Link().
	Shared bool `json:",omitempty"`

	// node is the content of all messages with this content, if it is not nil.
	node *node

	// Bad, if non-empty, is the validation error of the message.
	Bad string `json:",omitempty"`

	// Do is the script followed by each handler, by handler name.
	Do map[string][]Op `json:",omitempty"`
}

// Op is a single operation performed by a handler.
type Op struct {
	K  string
	M  *Msg   `json:",omitempty"`
	At int64  `json:",omitempty"` // see sim.At()
	S  string `json:",omitempty"`
	N  int    `json:",omitempty"`

	// Time overrides At.
	Time *time.Time `json:"-"`
}

// The operations that may be used in scripts.
const (
	Record   = "record"   // record event M
	Execute  = "execute"  // execute command M
	Schedule = "schedule" // schedule timeout M at At
	Destroy  = "destroy"
	End      = "end"
	Log      = "log"    // log S with N arguments
	Fail     = "fail"   // return an error with message S
	Panic    = "panic"  // panic, in the way described by S
	Cancel   = "cancel" // cancel the operation's context
	Yield    = "yield"  // yield N times to other goroutines

	// These are followed by the handler's routing method.
	RouteIgnore = "route-ignore"
	RouteFail   = "route-fail"
	RouteEmpty  = "route-empty"
	RoutePanic  = "route-panic"
	NilRoot     = "nil-root"

	// Conflict causes a projection to report an OCC conflict.
	Conflict = "conflict"
)

// ApplyScript is the key within Msg.Do of the script followed by ApplyEvent().
const ApplyScript = "#apply"

// LoadScript is the key within Msg.Do of the script followed by ApplyEvent()
// while no command is being handled, that is, when an instance is loaded.
const LoadScript = "#load"

func (m *Msg) describe() string {
	if m == nil {
		return "nil"
	}
	return fmt.Sprintf("<%s #%d>", m.T, m.K)
}

// Description returns the description of messages with this content.
func (m *Msg) Description() string {
	if m.Desc != nil {
		return *m.Desc
	}
	return m.describe()
}

func (m *Msg) validate() error {
	if m != nil && m.Bad != "" {
		return errors.New(m.Bad)
	}
	return nil
}

// Visible is the part of a message that can be seen by comparing messages
// deeply.
type Visible struct {
	I string
	M *Msg // nil if the message is anonymous
}

// node is a message's content. Only the address of the first field is exposed
// by the message, such that messages with different content can be deeply equal.
type node struct {
	visible Visible
	msg     *Msg
}

func (m *Msg) visible() *Visible {
	if m.node != nil {
		return &m.node.visible
	}
	n := &node{Visible{m.I, m}, m}
	if m.Anon {
		n.visible.M = nil
	}
	return &n.visible
}

// Link ensures that each use of a shared message within the given operations
// produces exactly the same Dogma message.
func Link(ops []*EngineOp) {
	shared := map[int]*Msg{}

	var link func(m *Msg) *Msg
	link = func(m *Msg) *Msg {
		if m == nil {
			return nil
		}
		if m.Shared {
			if x, ok := shared[m.K]; ok {
				return x
			}
			shared[m.K] = m
			m.node = &node{Visible{m.I, nil}, m}
		}
		for _, h := range sortedKeys(m.Do) {
			for i, op := range m.Do[h] {
				m.Do[h][i].M = link(op.M)
			}
		}
		return m
	}

	for _, op := range ops {
		op.M = link(op.M)
	}
}

func (v *Visible) content() *Msg {
	if v == nil {
		return nil
	}
	return (*node)(unsafe.Pointer(v)).msg
}

// CBody is the content of a command.
type CBody struct{ V *Visible }

// EBody is the content of an event.
type EBody struct{ V *Visible }

// TBody is the content of a timeout.
type TBody struct{ V *Visible }

// Content is an interface for obtaining the content of a message.
type Content interface{ Content() *Msg }

// Content returns the content of the message.
func (b CBody) Content() *Msg { return b.V.content() }

// MessageDescription returns a human-readable description.
func (b CBody) MessageDescription() string { return b.Content().Description() }

// Validate returns the validation error of the message.
func (b CBody) Validate(dogma.CommandValidationScope) error { return b.Content().validate() }

// Content returns the content of the message.
func (b EBody) Content() *Msg { return b.V.content() }

// MessageDescription returns a human-readable description.
func (b EBody) MessageDescription() string { return b.Content().Description() }

// Validate returns the validation error of the message.
func (b EBody) Validate(dogma.EventValidationScope) error { return b.Content().validate() }

// Content returns the content of the message.
func (b TBody) Content() *Msg { return b.V.content() }

// MessageDescription returns a human-readable description.
func (b TBody) MessageDescription() string { return b.Content().Description() }

// Validate returns the validation error of the message.
func (b TBody) Validate(dogma.TimeoutValidationScope) error { return b.Content().validate() }

// The message types. Some of them have names that differ only in their type
// arguments, some are pointers, and two have the same name.
type (
	C0 struct{ CBody }
	C1 = CommandOf[typeA]
	C2 = CommandOf[typeB]
	C3 = *CommandP

	E0 struct{ EBody }
	E1 = EventOf[typeA]
	E2 = EventOf[typeB]
	E4 = *EventP // E3 is local to a function

	T0 struct{ TBody }
	T1 = TimeoutOf[typeA]
	T2 = TimeoutOf[typeB]
)

// e3 is the uses of E3, which is another type with the same package and name as
// E0.
var e3 struct {
	make               func(EBody) dogma.Event
	consumes, produces func() dogma.Route
	ofType             func() testkit.Expectation
	matching           func(only bool, fn func(dogma.Event) error) testkit.Expectation
}

func init() {
	type E0 struct{ EBody }

	e3.make = func(b EBody) dogma.Event { return E0{b} }
	e3.consumes = func() dogma.Route { return dogma.HandlesEvent[E0]() }
	e3.produces = func() dogma.Route { return dogma.RecordsEvent[E0]() }
	e3.ofType = func() testkit.Expectation { return testkit.ToRecordEventType[E0]() }
	e3.matching = func(only bool, fn func(dogma.Event) error) testkit.Expectation {
		if only {
			return testkit.ToOnlyRecordEventsMatching(func(m E0) error { return fn(m) })
		}
		return testkit.ToRecordEventMatching(func(m E0) error { return fn(m) })
	}
}

// ToRecordE3 returns an expectation that an event of type E3 is recorded.
func ToRecordE3() testkit.Expectation {
	return e3.ofType()
}

// ToRecordE3Matching returns an expectation that an event of type E3 that
// satisfies fn, or if only is true, no other event, is recorded.
func ToRecordE3Matching(only bool, fn func(dogma.Event) error) testkit.Expectation {
	return e3.matching(only, fn)
}

// CommandOf is a generic command.
type CommandOf[T any] struct{ CBody }

// EventOf is a generic event.
type EventOf[T any] struct{ EBody }

// TimeoutOf is a generic timeout.
type TimeoutOf[T any] struct{ TBody }

// CommandP is a command that is used by pointer.
type CommandP struct{ CBody }

// EventP is an event that is used by pointer.
type EventP struct{ EBody }

// MessageDescription returns a human-readable description.
func (m *CommandP) MessageDescription() string { return m.Content().Description() }

// MessageDescription returns a human-readable description.
func (m *EventP) MessageDescription() string { return m.Content().Description() }

// Validate returns the validation error of the message.
func (m *CommandP) Validate(dogma.CommandValidationScope) error { return m.Content().validate() }

// Validate returns the validation error of the message.
func (m *EventP) Validate(dogma.EventValidationScope) error { return m.Content().validate() }

type (
	typeA struct{}
	typeB struct{}
)

// Commands, Events and Timeouts are the names of the message types.
var (
	Commands = []string{"C0", "C1", "C2", "C3"}
	Events   = []string{"E0", "E1", "E2", "E3", "E4"}
	Timeouts = []string{"T0", "T1", "T2"}
)

// Of returns the content of m.
func Of(m dogma.Message) *Msg {
	if c, ok := m.(Content); ok {
		return c.Content()
	}
	return nil
}

// Message returns a Dogma message with m as its content.
func (m *Msg) Message() dogma.Message {
	switch m.T[0] {
	case 'C':
		return m.Command()
	case 'E':
		return m.Event()
	default:
		return m.Timeout()
	}
}

// Command returns a Dogma command with m as its content.
func (m *Msg) Command() dogma.Command {
	b := CBody{m.visible()}
	switch m.T {
	case "C0":
		return C0{b}
	case "C1":
		return C1{b}
	case "C2":
		return C2{b}
	case "C3":
		return &CommandP{b}
	}
	panic("unknown command " + m.T)
}

// Event returns a Dogma event with m as its content.
func (m *Msg) Event() dogma.Event {
	b := EBody{m.visible()}
	switch m.T {
	case "E0":
		return E0{b}
	case "E1":
		return E1{b}
	case "E2":
		return E2{b}
	case "E3":
		return e3.make(b)
	case "E4":
		return &EventP{b}
	}
	panic("unknown event " + m.T)
}

// Timeout returns a Dogma timeout with m as its content.
func (m *Msg) Timeout() dogma.Timeout {
	b := TBody{m.visible()}
	switch m.T {
	case "T0":
		return T0{b}
	case "T1":
		return T1{b}
	case "T2":
		return T2{b}
	}
	panic("unknown timeout " + m.T)
}

// Walk calls fn for m and every message within the scripts it carries, in a
// deterministic order.
func (m *Msg) Walk(fn func(*Msg)) {
	if m == nil {
		return
	}
	fn(m)
	for _, h := range sortedKeys(m.Do) {
		for _, op := range m.Do[h] {
			op.M.Walk(fn)
		}
	}
}

// Clone returns a copy of m.
func (m *Msg) Clone() *Msg {
	if m == nil {
		return nil
	}
	c := *m
	c.Do = map[string][]Op{}
	for h, ops := range m.Do {
		for _, op := range ops {
			op.M = op.M.Clone()
			c.Do[h] = append(c.Do[h], op)
		}
	}
	return &c
}

// Size returns the number of messages in the tree.
func (m *Msg) Size() int {
	n := 0
	m.Walk(func(*Msg) { n++ })
	return n
}

// AssignKeys gives each message in the trees a unique key.
func AssignKeys(next *int, roots ...*Msg) {
	for _, r := range roots {
		r.Walk(func(m *Msg) {
			*next++
			m.K = *next
		})
	}
}

// Has returns true if the script of h contains an operation of kind k.
func (m *Msg) Has(h, k string) bool {
	_, ok := m.Find(h, k)
	return ok
}

// Find returns the first operation of kind k in the script of h.
func (m *Msg) Find(h, k string) (Op, bool) {
	for _, op := range m.Do[h] {
		if op.K == k {
			return op, true
		}
	}
	return Op{}, false
}

func (m *Msg) HasAny(k string) bool {
	found := false
	m.Walk(func(m *Msg) {
		for h := range m.Do {
			if m.Has(h, k) {
				found = true
			}
		}
	})
	return found
}
