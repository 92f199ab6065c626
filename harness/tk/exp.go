package tk

import (
	"encoding/json"
	"errors"
	"fmt"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
	"verif/harness/sim"
)

// The kinds of expectation.
const (
	Message = "message" // a specific message M
	Type    = "type"    // a message of type T, given as a type parameter
	OfType  = "of-type" // a message of type T, given by example
	Match   = "match"   // a message of type T that matches P
	Only    = "only"    // only messages of type T that match P
	All     = "all"
	Any     = "any"
	None    = "none"
	Not     = "not"
	Repeat  = "repeat"  // N iterations, each using one of C
	Satisfy = "satisfy" // user-defined, performs the operations in Do
	Fixed   = "fixed"   // instrumented, with a verdict determined by V
	Missing = "missing" // no expectation at all, as an iteration of Repeat
)

// Exp is an expectation.
type Exp struct {
	K string

	M *sim.Msg `json:",omitempty"`

	// T is the name of a message type, or "Command", "Event", or "AnyCommand"
	// or "AnyEvent" to use an interface as the type.
	T string `json:",omitempty"`

	// P contains the outcomes of the predicate function, which are chosen by
	// the key of the message.
	P []string `json:",omitempty"`

	// S is a description.
	S string `json:",omitempty"`

	N int `json:",omitempty"`

	C []*Exp `json:",omitempty"`

	V string `json:",omitempty"`

	Do []SatisfyOp `json:",omitempty"`

	// Shared, if nonzero, identifies expectations that are built once and used
	// several times.
	Shared int `json:",omitempty"`

	// Own is true if the expectation is implemented by user code that defers
	// to the expectation.
	Own bool `json:",omitempty"`
}

// SatisfyOp is an operation on a testkit.SatisfyT.
type SatisfyOp struct {
	K string
	S string      `json:",omitempty"`
	N int         `json:",omitempty"`
	C []SatisfyOp `json:",omitempty"`
}

// The verdicts of instrumented expectations.
const (
	Pass     = "pass"
	Fail     = "fail"
	PassLate = "pass-late" // passes only once finalised
	FailLate = "fail-late" // fails only once finalised
	Refuse   = "refuse"    // refuses to provide a predicate
)

// The outcomes of predicate functions. Anything else is an error message.
const (
	PredNil    = "nil"
	PredIgnore = "ignore"
)

// Walk calls fn for e and all of its children.
func (e *Exp) Walk(fn func(*Exp)) {
	fn(e)
	for _, c := range e.C {
		c.Walk(fn)
	}
}

// Kind returns the kind of message that e is about ('C' or 'E').
func (e *Exp) Kind() byte {
	if e.M != nil {
		return e.M.T[0]
	}
	switch e.T {
	case "Command", "AnyCommand":
		return 'C'
	case "Event", "AnyEvent":
		return 'E'
	}
	return e.T[0]
}

// Interface returns true if the type of e is an interface.
func (e *Exp) Interface() bool {
	switch e.T {
	case "Command", "AnyCommand", "Event", "AnyEvent":
		return true
	}
	return false
}

// TypeName returns the name of the concrete type of message that e is about,
// if any.
func (e *Exp) TypeName() string {
	if e.M != nil {
		return e.M.T
	}
	if e.Interface() {
		return ""
	}
	return e.T
}

// IsMessage returns true if e is an expectation about messages.
func (e *Exp) IsMessage() bool {
	switch e.K {
	case Message, Type, OfType, Match, Only:
		return true
	}
	return false
}

// IsComposite returns true if e has children.
func (e *Exp) IsComposite() bool {
	return len(e.C) > 0
}

// Child returns the child used in the i'th iteration of a repeated expectation.
func (e *Exp) Child(i int) *Exp {
	return e.C[i%len(e.C)]
}

// AnyCommand is an interface that is implemented by the simulated commands.
type AnyCommand interface {
	dogma.Command
	sim.Content
}

// AnyEvent is an interface that is implemented by the simulated events.
type AnyEvent interface {
	dogma.Event
	sim.Content
}

// Outcome returns the outcome of e's predicate function for m.
func (e *Exp) Outcome(m *sim.Msg) string {
	if len(e.P) == 0 {
		return PredNil
	}
	return e.P[m.K%len(e.P)]
}

func outcome(e *Exp, m dogma.Message) error {
	switch o := e.Outcome(sim.Of(m)); o {
	case PredNil:
		return nil
	case PredIgnore:
		return testkit.IgnoreMessage
	default:
		return errors.New(o)
	}
}

// Encode returns a representation of m's content.
func Encode(m *sim.Msg) string {
	data, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return string(data)
}

// The comparators.
const (
	CompareDefault = ""
	CompareNil     = "nil"    // explicitly set to nil
	CompareKey     = "key"    // only the key is compared
	CompareAlways  = "always" // everything is equal
	CompareNever   = "never"
	CompareOrder   = "order" // the actual message's key is no greater than the expected one's
)

// Comparator returns the comparator with the given name.
func Comparator(name string) testkit.MessageComparator {
	if name == CompareDefault || name == CompareNil {
		return nil
	}
	return func(a, b dogma.Message) bool {
		return Compare(name, sim.Of(a), sim.Of(b))
	}
}

// Compare compares the actual message a with the expected message b.
func Compare(name string, a, b *sim.Msg) bool {
	switch name {
	case CompareKey:
		return a.K == b.K
	case CompareAlways:
		return true
	case CompareNever:
		return false
	case CompareOrder:
		return a.K <= b.K
	}
	return Encode(a) == Encode(b)
}

// Observed is what an expectation is judged on.
type Observed struct {
	// Messages are the messages that were produced.
	Messages []*sim.Msg

	// Comparator is the name of the comparator.
	Comparator string
}

// Holds returns true if e is to pass.
func (e *Exp) Holds(o Observed) bool {
	switch e.K {
	case Message:
		for _, m := range o.Messages {
			if m.T == e.M.T && Compare(o.Comparator, m, e.M) {
				return true
			}
		}
		return false

	case Type, OfType:
		for _, m := range o.Messages {
			if m.T == e.T {
				return true
			}
		}
		return false

	case Match:
		for _, m := range o.Messages {
			if e.accepts(m) && e.Outcome(m) == PredNil {
				return true
			}
		}
		return false

	case Only:
		for _, m := range o.Messages {
			if m.T[0] != e.Kind() {
				continue
			}
			if !e.accepts(m) {
				return false
			}
			if x := e.Outcome(m); x != PredNil && x != PredIgnore {
				return false
			}
		}
		return true

	case All, None, Any:
		n := 0
		for _, c := range e.C {
			if c.Holds(o) {
				n++
			}
		}
		switch e.K {
		case All:
			return n == len(e.C)
		case Any:
			return n > 0
		default:
			return n == 0
		}

	case Not:
		return !e.C[0].Holds(o)

	case Repeat:
		for i := range e.N {
			if !e.Child(i).Holds(o) {
				return false
			}
		}
		return true

	case Satisfy:
		return e.V != Fail

	case Fixed:
		return e.V == Pass || e.V == PassLate
	}
	panic("unknown expectation: " + e.K)
}

// accepts returns true if m can be passed to e's predicate.
func (e *Exp) accepts(m *sim.Msg) bool {
	if m.T[0] != e.Kind() {
		return false
	}
	return e.Interface() || m.T == e.T
}

// LeafEvent is something that happened to an instrumented leaf.
type LeafEvent struct {
	What string // "notify", "done" or "report"
	Fact fact.Fact
	Time int // logical time

	// TreeOK is the verdict on the whole tree, according to the context in
	// which a report is generated.
	TreeOK bool
}

// Leaf is the predicate of an instrumented expectation.
type Leaf struct {
	b      *Builder
	exp    *Exp
	Events []LeafEvent
	isDone bool
}

// Description returns the description of the expectation.
func (l *Leaf) Description() string {
	return l.exp.S
}

// Notify records a fact.
func (l *Leaf) Notify(f fact.Fact) {
	l.add("notify", f)
}

func (l *Leaf) add(what string, f fact.Fact) {
	l.Events = append(l.Events, LeafEvent{What: what, Fact: f, Time: l.b.tick()})
}

// Ok returns the verdict.
func (l *Leaf) Ok() bool {
	switch l.exp.V {
	case Pass:
		return true
	case PassLate:
		return l.isDone
	case FailLate:
		return !l.isDone
	}
	return false
}

// Done finalises the predicate.
func (l *Leaf) Done() {
	l.add("done", nil)
	l.isDone = true
}

// Report returns a report.
func (l *Leaf) Report(ctx testkit.ReportGenerationContext) *testkit.Report {
	l.add("report", nil)
	l.Events[len(l.Events)-1].TreeOK = ctx.TreeOk
	return &testkit.Report{
		TreeOk:   ctx.TreeOk,
		Ok:       l.Ok(),
		Criteria: l.exp.S,
	}
}

type fixedExpectation struct {
	b *Builder
	e *Exp
}

func (x *fixedExpectation) Caption() string { return "to " + x.e.S }

func (x *fixedExpectation) Predicate(s testkit.PredicateScope) (testkit.Predicate, error) {
	if x.e.V == Refuse {
		return nil, errors.New(x.e.S)
	}
	l := &Leaf{b: x.b, exp: x.e}
	x.b.Leaves = append(x.b.Leaves, l)
	return l, nil
}

// Builder builds expectations.
type Builder struct {
	// Leaves are the instrumented predicates that were created.
	Leaves []*Leaf

	// Own are the predicates implemented by user code that were created.
	Own []*OwnPredicate

	// Iterations are the indices passed to the factories of repeated
	// expectations, in order.
	Iterations map[*Exp][]int

	// OnSatisfy is called by user-defined checks.
	OnSatisfy func(*Exp, *testkit.SatisfyT)

	time   int
	shared map[int]testkit.Expectation
}

func (b *Builder) tick() int {
	b.time++
	return b.time
}

// Mark returns a logical time.
func (b *Builder) Mark() int {
	return b.tick()
}

// Clear forgets about everything that was built.
func (b *Builder) Clear() {
	b.shared = nil
	b.Leaves = nil
	b.Own = nil
	b.Iterations = nil
}

// Build returns a testkit expectation.
func (b *Builder) Build(e *Exp) testkit.Expectation {
	if e.Shared != 0 {
		if x, ok := b.shared[e.Shared]; ok {
			return x
		}
	}
	x := b.build(e)
	if e.Own {
		x = &ownExpectation{b, e, x}
	}
	if e.Shared != 0 {
		if b.shared == nil {
			b.shared = map[int]testkit.Expectation{}
		}
		b.shared[e.Shared] = x
	}
	return x
}

func (b *Builder) build(e *Exp) testkit.Expectation {
	children := func() []testkit.Expectation {
		var res []testkit.Expectation
		for _, c := range e.C {
			res = append(res, b.Build(c))
		}
		return res
	}

	switch e.K {
	case Message:
		if e.M.T[0] == 'C' {
			return testkit.ToExecuteCommand(e.M.Command())
		}
		return testkit.ToRecordEvent(e.M.Event())

	case Type:
		return typeExpectation(e.T)

	case OfType:
		m := &sim.Msg{T: e.T}
		if e.T[0] == 'C' {
			return testkit.ToExecuteCommandOfType(m.Command())
		}
		return testkit.ToRecordEventOfType(m.Event())

	case Match, Only:
		return matchExpectation(e)

	case All:
		return testkit.AllOf(children()...)
	case Any:
		return testkit.AnyOf(children()...)
	case None:
		return testkit.NoneOf(children()...)
	case Not:
		return testkit.Not(b.Build(e.C[0]))

	case Repeat:
		x := children()
		return testkit.ToRepeatedly(e.S, e.N, func(i int) testkit.Expectation {
			if b.Iterations == nil {
				b.Iterations = map[*Exp][]int{}
			}
			b.Iterations[e] = append(b.Iterations[e], i)
			if e.Child(i).K == Missing {
				return nil
			}
			return x[i%len(x)]
		})

	case Satisfy:
		return testkit.ToSatisfy(e.S, func(t *testkit.SatisfyT) {
			if b.OnSatisfy != nil {
				b.OnSatisfy(e, t)
				return
			}
			if e.V == Fail {
				t.Fail()
			}
		})

	case Fixed:
		return &fixedExpectation{b, e}

	case Missing:
		return nil
	}

	panic("unknown expectation: " + e.K)
}

func typeExpectation(t string) testkit.Expectation {
	switch t {
	case "C0":
		return testkit.ToExecuteCommandType[sim.C0]()
	case "C1":
		return testkit.ToExecuteCommandType[sim.C1]()
	case "C2":
		return testkit.ToExecuteCommandType[sim.C2]()
	case "C3":
		return testkit.ToExecuteCommandType[sim.C3]()
	case "E0":
		return testkit.ToRecordEventType[sim.E0]()
	case "E1":
		return testkit.ToRecordEventType[sim.E1]()
	case "E2":
		return testkit.ToRecordEventType[sim.E2]()
	case "E3":
		return sim.ToRecordE3()
	case "E4":
		return testkit.ToRecordEventType[sim.E4]()
	}
	panic(fmt.Sprintf("unknown type %q", t))
}

func matchExpectation(e *Exp) testkit.Expectation {
	switch e.T {
	case "C0":
		return commandMatch[sim.C0](e)
	case "C1":
		return commandMatch[sim.C1](e)
	case "C2":
		return commandMatch[sim.C2](e)
	case "C3":
		return commandMatch[sim.C3](e)
	case "Command":
		return commandMatch[dogma.Command](e)
	case "AnyCommand":
		return commandMatch[AnyCommand](e)
	case "E0":
		return eventMatch[sim.E0](e)
	case "E1":
		return eventMatch[sim.E1](e)
	case "E2":
		return eventMatch[sim.E2](e)
	case "E3":
		return sim.ToRecordE3Matching(e.K == Only, func(m dogma.Event) error { return outcome(e, m) })
	case "E4":
		return eventMatch[sim.E4](e)
	case "Event":
		return eventMatch[dogma.Event](e)
	case "AnyEvent":
		return eventMatch[AnyEvent](e)
	}
	panic(fmt.Sprintf("unknown type %q", e.T))
}

func commandMatch[M dogma.Command](e *Exp) testkit.Expectation {
	fn := func(m M) error { return outcome(e, m) }
	if e.K == Only {
		return testkit.ToOnlyExecuteCommandsMatching(fn)
	}
	return testkit.ToExecuteCommandMatching(fn)
}

func eventMatch[M dogma.Event](e *Exp) testkit.Expectation {
	fn := func(m M) error { return outcome(e, m) }
	if e.K == Only {
		return testkit.ToOnlyRecordEventsMatching(fn)
	}
	return testkit.ToRecordEventMatching(fn)
}
