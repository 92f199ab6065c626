package checks

import (
	"errors"
	"fmt"
	"slices"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/enginekit/message"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

type p27Case struct {
	// Exactly one of these is present.
	Facts *p27Facts `json:",omitempty"`
	Ops   *sim.Case `json:",omitempty"`
	Test  *tk.Case  `json:",omitempty"`
}

// p27Facts is a sequence of facts that are given to a logger.
type p27Facts struct {
	App   *sim.App
	Facts []*p27Fact
}

type p27Fact struct {
	K      string
	H      string          `json:",omitempty"` // handler
	Inst   string          `json:",omitempty"`
	Env    *p27Env         `json:",omitempty"`
	New    *p27Env         `json:",omitempty"` // envelope of produced message
	Err    *string         `json:",omitempty"`
	Format string          `json:",omitempty"`
	Args   []any           `json:",omitempty"`
	Reason string          `json:",omitempty"`
	Time   int64           `json:",omitempty"`
	Zone   int             `json:",omitempty"`
	Types  map[string]bool `json:",omitempty"`
	Names  map[string]bool `json:",omitempty"`
}

type p27Env struct {
	ID, Cause, Corr string
	T               string // type of message
	Desc            string
	Sched           int64 `json:",omitempty"`
	Zone            int   `json:",omitempty"`
}

func init() {
	prop.Register("P27", prop.Options{
		Rule: "A case is either a sequence of arbitrary facts of every type, a history of engine operations, or a test, all of which are logged. " +
			"It is non-trivial if at least five lines are logged and at least one fact is not.",
		Quick:    180000,
		Thorough: 1080000,
	}, p27Draw, func(cp **p27Case, st *prop.Stats) error {
		c := *cp
		switch {
		case c.Facts != nil:
			st.Class("facts")
			return c.Facts.judge(st)
		case c.Ops != nil:
			st.Class("history")
			return p27Ops(c.Ops, st)
		default:
			st.Class("test")
			return p27Test(c.Test, st)
		}
	})
}

// The message types used in directly generated facts.
type (
	p27Command           struct{ Desc string }
	p27Event             struct{ Desc string }
	p27Timeout           struct{ Desc string }
	p27PtrEvent          struct{ Desc string }
	p27GenericCmd[T any] struct{ Desc string }
)

func (m p27Command) MessageDescription() string                        { return m.Desc }
func (m p27Command) Validate(dogma.CommandValidationScope) error       { return nil }
func (m p27Event) MessageDescription() string                          { return m.Desc }
func (m p27Event) Validate(dogma.EventValidationScope) error           { return nil }
func (m p27Timeout) MessageDescription() string                        { return m.Desc }
func (m p27Timeout) Validate(dogma.TimeoutValidationScope) error       { return nil }
func (m *p27PtrEvent) MessageDescription() string                      { return m.Desc }
func (m *p27PtrEvent) Validate(dogma.EventValidationScope) error       { return nil }
func (m p27GenericCmd[T]) MessageDescription() string                  { return m.Desc }
func (m p27GenericCmd[T]) Validate(dogma.CommandValidationScope) error { return nil }

// p27Types is a description of the message types, as they appear in the log.
var p27Types = map[string]struct {
	kind string
	name string
	make func(desc string) dogma.Message
}{
	"command": {"C", "checks.p27Command?", func(d string) dogma.Message { return p27Command{d} }},
	"generic": {"C", "checks.p27GenericCmd[int]?", func(d string) dogma.Message { return p27GenericCmd[int]{d} }},
	"event":   {"E", "checks.p27Event!", func(d string) dogma.Message { return p27Event{d} }},
	"ptr":     {"E", "*checks.p27PtrEvent!", func(d string) dogma.Message { return &p27PtrEvent{d} }},
	"timeout": {"T", "checks.p27Timeout@", func(d string) dogma.Message { return p27Timeout{d} }},
}

func (e *p27Env) envelope() *envelope.Envelope {
	if e == nil {
		return nil
	}
	return &envelope.Envelope{
		MessageID:     e.ID,
		CausationID:   e.Cause,
		CorrelationID: e.Corr,
		Message:       p27Types[e.T].make(e.Desc),
		CreatedAt:     sim.At(0),
		ScheduledFor:  sim.At(e.Sched).In(time.FixedZone("zone", e.Zone*1800)),
	}
}

var p27Kinds = []string{
	"dispatch-cycle-begun", "dispatch-cycle-completed", "dispatch-begun", "dispatch-completed",
	"handling-begun", "handling-completed", "handling-skipped",
	"tick-cycle-begun", "tick-cycle-completed", "tick-begun", "tick-completed", "tick-skipped",
	"aggregate-loaded", "aggregate-not-found", "aggregate-created", "aggregate-destroyed", "aggregate-destruction-reverted",
	"aggregate-event", "aggregate-log",
	"process-loaded", "process-event-ignored", "process-timeout-ignored", "process-not-found", "process-begun", "process-ended", "process-ending-reverted",
	"process-command", "process-timeout", "process-log",
	"integration-event", "integration-log",
	"compaction-begun", "compaction-completed", "projection-log",
}

var p27Strings = []string{
	"", " ", "text", "<text>", "50%", "%d", "%", "%!s(MISSING)", "é", "日本", "● text", "two\nlines", "= 01  ∵ 01", "-", "--", "a longer text, with punctuation: yes.",
}

func p27Draw(t *rapid.T) *p27Case {
	g := sim.Gen{
		Max:                map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 2, sim.Projection: 2},
		Disabled:           true,
		MaxMessages:        10,
		Instances:          []string{"a", "b", "%s", "two words"},
		Times:              []int64{0, 1000, 2000, 3600000, 86400000},
		Schedule:           2,
		ProjectionOutcomes: true,
		Ops:                []string{sim.End, sim.Destroy, sim.Log, sim.Log, sim.Fail, sim.RouteIgnore, sim.RouteFail},
	}
	if rapid.Bool().Draw(t, "names") {
		g.Names = func(t *rapid.T, n int) []string {
			return p25DrawNames(t, n)
		}
	}

	switch sim.Int(t, 0, 4) {
	case 0:
		g := g.Defaults()
		c := &sim.Case{App: g.App(t)}
		c.Compact = sim.OneIn(t, 2)
		c.Ops = g.History(t, c.App, 1, 5, []string{"dispatch", "dispatch", "tick", "tick", "reset"}, 2)
		return &p27Case{Ops: c}

	case 1:
		g := g.Defaults()
		c := &tk.Case{App: g.App(t)}
		c.Opts = g.Opts(t, c.App, 3)
		for range sim.Int(t, 1, 4) {
			s := &tk.Step{}
			for range sim.Int(t, 1, 2) {
				s.Acts = append(s.Acts, tk.Action(t, g, c.App, []string{tk.Dispatch, tk.Dispatch, tk.By, tk.Call}, 0))
			}
			if sim.OneIn(t, 4) {
				s.Off = []string{sim.Pick(t, c.App.Handlers).Name}
			}
			if sim.OneIn(t, 4) {
				// It is an error to enable a handler that is disabled by its
				// configuration.
				if h := sim.Pick(t, c.App.Handlers); !h.Disabled {
					s.On = []string{h.Name}
				}
			}
			c.Steps = append(c.Steps, s)
		}
		next := 0
		for _, s := range c.Steps {
			for _, a := range s.Acts {
				sim.AssignKeys(&next, a.M)
				sim.Describe(t, a.M)
				for _, x := range a.Calls {
					sim.AssignKeys(&next, x.M)
					sim.Describe(t, x.M)
				}
			}
		}
		return &p27Case{Test: c}

	default:
		g.Min = map[string]int{sim.Aggregate: 1, sim.Process: 1, sim.Integration: 1, sim.Projection: 1}
		c := &p27Facts{App: g.Defaults().App(t)}
		for range sim.Int(t, 1, 12) {
			c.Facts = append(c.Facts, p27DrawFact(t, c.App))
		}
		return &p27Case{Facts: c}
	}
}

func p27DrawFact(t *rapid.T, app *sim.App) *p27Fact {
	f := &p27Fact{K: sim.Pick(t, p27Kinds)}

	id := func() string {
		return sim.Pick(t, []string{"", "1", "2", "9", "10", "11", "99", "100", "12345", "x", "é", "%", "5%", "%d", "%s%s"})
	}
	env := func(kinds string) *p27Env {
		var names []string
		for _, n := range []string{"command", "generic", "event", "ptr", "timeout"} {
			if strings.Contains(kinds, p27Types[n].kind) {
				names = append(names, n)
			}
		}
		return &p27Env{
			ID:    id(),
			Cause: id(),
			Corr:  id(),
			T:     sim.Pick(t, names),
			Desc:  sim.Pick(t, p27Strings),
			Sched: int64(sim.Int(t, 0, 1000000)) * 1500,
			Zone:  sim.Int(t, -20, 20),
		}
	}

	var handlers []string
	for _, h := range app.Handlers {
		if typ, _, _ := strings.Cut(f.K, "-"); typ == h.Type || (typ == "compaction" && h.Type == sim.Projection) ||
			!slices.Contains([]string{sim.Aggregate, sim.Process, sim.Integration, sim.Projection, "compaction"}, typ) {
			handlers = append(handlers, h.Name)
		}
	}
	f.H = sim.Pick(t, handlers)
	f.Inst = sim.Pick(t, p27Strings)

	f.Env = env("CET")
	if f.K == "projection-log" && rapid.Bool().Draw(t, "compacting") {
		f.Env = nil
	}

	switch f.K {
	case "aggregate-event", "integration-event":
		f.New = env("E")
	case "process-command":
		f.New = env("C")
	case "process-timeout":
		f.New = env("T")
	}

	if rapid.Bool().Draw(t, "error") {
		s := sim.Pick(t, p27Strings)
		f.Err = &s
	}

	if strings.HasSuffix(f.K, "-log") {
		f.Format = sim.Pick(t, append([]string{"%v", "a %v b %v", "%s=%d", "%[2]v %[1]v", "%%", "100%% of %q", "%d %d"}, p27Strings...))
		for range sim.Int(t, 0, 3) {
			f.Args = append(f.Args, sim.Pick(t, []any{true, "text", "50%", "<%d>", 1.5, nil}))
		}
	}

	f.Reason = sim.Pick(t, []string{"T", "I", "C"})
	f.Time = int64(sim.Int(t, 0, 1000000)) * 1500
	f.Zone = sim.Int(t, -20, 20)

	f.Types = map[string]bool{}
	for _, typ := range []string{sim.Aggregate, sim.Process, sim.Integration, sim.Projection} {
		if !sim.OneIn(t, 4) {
			f.Types[typ] = rapid.Bool().Draw(t, "on")
		}
	}
	f.Names = map[string]bool{}
	for _, n := range sim.Subset(t, p25Names, 0) {
		f.Names[n] = rapid.Bool().Draw(t, "on")
	}
	return f
}

// fact returns the fact.
func (f *p27Fact) fact(cfg configkit.RichApplication) fact.Fact {
	var (
		types = map[configkit.HandlerType]bool{}
		now   = sim.At(f.Time).In(time.FixedZone("zone", f.Zone*1800))
		env   = f.Env.envelope()
		add   = f.New.envelope()
		err   error
	)
	for k, v := range f.Types {
		types[configkit.HandlerType(k)] = v
	}
	if f.Err != nil {
		err = errors.New(*f.Err)
	}

	h, ok := cfg.RichHandlers().ByName(f.H)
	if !ok {
		panic("unknown handler " + f.H)
	}
	agg, _ := h.(configkit.RichAggregate)
	proc, _ := h.(configkit.RichProcess)
	integ, _ := h.(configkit.RichIntegration)
	proj, _ := h.(configkit.RichProjection)
	reason := fact.HandlerSkipReason(f.Reason[0])

	switch f.K {
	case "dispatch-cycle-begun":
		return fact.DispatchCycleBegun{Envelope: env, EngineTime: now, EnabledHandlerTypes: types, EnabledHandlers: f.Names}
	case "dispatch-cycle-completed":
		return fact.DispatchCycleCompleted{Envelope: env, Error: err, EnabledHandlerTypes: types, EnabledHandlers: f.Names}
	case "dispatch-begun":
		return fact.DispatchBegun{Envelope: env}
	case "dispatch-completed":
		return fact.DispatchCompleted{Envelope: env, Error: err}
	case "handling-begun":
		return fact.HandlingBegun{Handler: h, Envelope: env}
	case "handling-completed":
		return fact.HandlingCompleted{Handler: h, Envelope: env, Error: err}
	case "handling-skipped":
		return fact.HandlingSkipped{Handler: h, Envelope: env, Reason: reason}
	case "tick-cycle-begun":
		return fact.TickCycleBegun{EngineTime: now, EnabledHandlerTypes: types, EnabledHandlers: f.Names}
	case "tick-cycle-completed":
		return fact.TickCycleCompleted{Error: err, EnabledHandlerTypes: types, EnabledHandlers: f.Names}
	case "tick-begun":
		return fact.TickBegun{Handler: h}
	case "tick-completed":
		return fact.TickCompleted{Handler: h, Error: err}
	case "tick-skipped":
		return fact.TickSkipped{Handler: h, Reason: reason}
	case "aggregate-loaded":
		return fact.AggregateInstanceLoaded{Handler: agg, InstanceID: f.Inst, Envelope: env}
	case "aggregate-not-found":
		return fact.AggregateInstanceNotFound{Handler: agg, InstanceID: f.Inst, Envelope: env}
	case "aggregate-created":
		return fact.AggregateInstanceCreated{Handler: agg, InstanceID: f.Inst, Envelope: env}
	case "aggregate-destroyed":
		return fact.AggregateInstanceDestroyed{Handler: agg, InstanceID: f.Inst, Envelope: env}
	case "aggregate-destruction-reverted":
		return fact.AggregateInstanceDestructionReverted{Handler: agg, InstanceID: f.Inst, Envelope: env}
	case "aggregate-event":
		return fact.EventRecordedByAggregate{Handler: agg, InstanceID: f.Inst, Envelope: env, EventEnvelope: add}
	case "aggregate-log":
		return fact.MessageLoggedByAggregate{Handler: agg, InstanceID: f.Inst, Envelope: env, LogFormat: f.Format, LogArguments: f.Args}
	case "process-loaded":
		return fact.ProcessInstanceLoaded{Handler: proc, InstanceID: f.Inst, Envelope: env}
	case "process-event-ignored":
		return fact.ProcessEventIgnored{Handler: proc, Envelope: env}
	case "process-timeout-ignored":
		return fact.ProcessTimeoutIgnored{Handler: proc, InstanceID: f.Inst, Envelope: env}
	case "process-not-found":
		return fact.ProcessInstanceNotFound{Handler: proc, InstanceID: f.Inst, Envelope: env}
	case "process-begun":
		return fact.ProcessInstanceBegun{Handler: proc, InstanceID: f.Inst, Envelope: env}
	case "process-ended":
		return fact.ProcessInstanceEnded{Handler: proc, InstanceID: f.Inst, Envelope: env}
	case "process-ending-reverted":
		return fact.ProcessInstanceEndingReverted{Handler: proc, InstanceID: f.Inst, Envelope: env}
	case "process-command":
		return fact.CommandExecutedByProcess{Handler: proc, InstanceID: f.Inst, Envelope: env, CommandEnvelope: add}
	case "process-timeout":
		return fact.TimeoutScheduledByProcess{Handler: proc, InstanceID: f.Inst, Envelope: env, TimeoutEnvelope: add}
	case "process-log":
		return fact.MessageLoggedByProcess{Handler: proc, InstanceID: f.Inst, Envelope: env, LogFormat: f.Format, LogArguments: f.Args}
	case "integration-event":
		return fact.EventRecordedByIntegration{Handler: integ, Envelope: env, EventEnvelope: add}
	case "integration-log":
		return fact.MessageLoggedByIntegration{Handler: integ, Envelope: env, LogFormat: f.Format, LogArguments: f.Args}
	case "compaction-begun":
		return fact.ProjectionCompactionBegun{Handler: proj}
	case "compaction-completed":
		return fact.ProjectionCompactionCompleted{Handler: proj, Error: err}
	case "projection-log":
		return fact.MessageLoggedByProjection{Handler: proj, Envelope: env, LogFormat: f.Format, LogArguments: f.Args}
	}
	panic("unknown fact " + f.K)
}

// logLine is a specification of a line in the log.
type logLine struct {
	env     *envelope.Envelope
	dir     string
	handler string
	failed  bool
	text    []string
}

func (l *logLine) String() string {
	id := func(s string) string {
		if s == "" {
			return "--"
		}
		for utf8.RuneCountInString(s) < 2 {
			s = "0" + s
		}
		return s
	}

	env := l.env
	if env == nil {
		env = &envelope.Envelope{}
	}
	s := "= " + id(env.MessageID) + "  ∵ " + id(env.CausationID) + "  ⋲ " + id(env.CorrelationID)
	s += "  " + l.dir + " " + l.handler + " "
	if l.failed {
		s += "✖"
	} else {
		s += " "
	}
	s += " "
	sep := " "
	for _, t := range l.text {
		if t != "" {
			s += sep + t
			sep = " ● "
		}
	}
	return s
}

const (
	logIn     = "▼"
	logFailed = "▽"
	logOut    = "▲"
	logNone   = " "
)

// logSymbols are the symbols of each handler type.
var logSymbols = map[string]string{
	sim.Aggregate:   "∴",
	sim.Process:     "≡",
	sim.Integration: "⨝",
	sim.Projection:  "Σ",
	"":              "⚙",
}

// describeMessage returns the type of the message in env and its description.
func logMessage(env *envelope.Envelope) (string, string) {
	if x := sim.Of(env.Message); x != nil {
		return message.TypeOf(env.Message).String() + map[byte]string{'C': "?", 'E': "!", 'T': "@"}[x.T[0]], x.Description()
	}
	for _, typ := range p27Types {
		switch m := env.Message.(type) {
		case *p27PtrEvent:
			return "*checks.p27PtrEvent!", m.Desc
		default:
			if fmt.Sprintf("%T", typ.make("")) == fmt.Sprintf("%T", m) {
				return typ.name, m.MessageDescription()
			}
		}
	}
	panic(fmt.Sprintf("unexpected message: %T", env.Message))
}

// logSpec returns the line that is expected for a fact, or nil if there is none.
func logSpec(f fact.Fact) *logLine {
	enabled := func(types map[configkit.HandlerType]bool, names map[string]bool) string {
		s := "enabled:"
		for _, t := range [][2]string{
			{sim.Aggregate, "aggregates"},
			{sim.Process, "processes"},
			{sim.Integration, "integrations"},
			{sim.Projection, "projections"},
		} {
			if types[configkit.HandlerType(t[0])] {
				s += " +" + t[1]
			}
		}
		var list []string
		for n := range names {
			list = append(list, n)
		}
		slices.Sort(list)
		for _, n := range list {
			s += map[bool]string{true: " +", false: " -"}[names[n]] + n
		}
		return s
	}
	symbol := func(h configkit.RichHandler) string {
		return logSymbols[string(h.HandlerType())]
	}
	line := func(env *envelope.Envelope, dir, typ string, text ...string) *logLine {
		return &logLine{env: env, dir: dir, handler: logSymbols[typ], text: text}
	}
	produced := func(env *envelope.Envelope, typ string, text ...string) *logLine {
		t, d := logMessage(env)
		return line(env, logOut, typ, append(text, t, d)...)
	}

	switch f := f.(type) {
	case fact.DispatchCycleBegun:
		return line(f.Envelope, logIn, "", "dispatching", rfc3339(f.EngineTime), enabled(f.EnabledHandlerTypes, f.EnabledHandlers))
	case fact.DispatchBegun:
		t, d := logMessage(f.Envelope)
		return line(f.Envelope, logIn, "", t, d)
	case fact.HandlingCompleted:
		if f.Error == nil {
			return nil
		}
		return &logLine{f.Envelope, logFailed, symbol(f.Handler), true, []string{f.Handler.Identity().Name, f.Error.Error()}}
	case fact.HandlingSkipped:
		reason := map[fact.HandlerSkipReason]string{
			fact.HandlerTypeDisabled:                      "handler skipped because " + string(f.Handler.HandlerType()) + " handlers are disabled",
			fact.IndividualHandlerDisabled:                "handler skipped because it is disabled during this tick of the test engine",
			fact.IndividualHandlerDisabledByConfiguration: "handler skipped because it is disabled by its Configure() method",
		}[f.Reason]
		return &logLine{f.Envelope, logIn, symbol(f.Handler), false, []string{f.Handler.Identity().Name, reason}}
	case fact.TickCycleBegun:
		return line(nil, logNone, "", "ticking", rfc3339(f.EngineTime), enabled(f.EnabledHandlerTypes, f.EnabledHandlers))
	case fact.TickCompleted:
		if f.Error == nil {
			return nil
		}
		return &logLine{nil, logNone, symbol(f.Handler), true, []string{f.Handler.Identity().Name, f.Error.Error()}}

	case fact.AggregateInstanceLoaded:
		return line(f.Envelope, logIn, sim.Aggregate, f.Handler.Identity().Name+" "+f.InstanceID, "loaded an existing instance")
	case fact.AggregateInstanceNotFound:
		return line(f.Envelope, logIn, sim.Aggregate, f.Handler.Identity().Name+" "+f.InstanceID, "instance does not yet exist")
	case fact.AggregateInstanceCreated:
		return line(f.Envelope, logIn, sim.Aggregate, f.Handler.Identity().Name+" "+f.InstanceID, "instance created")
	case fact.AggregateInstanceDestroyed:
		return line(f.Envelope, logIn, sim.Aggregate, f.Handler.Identity().Name+" "+f.InstanceID, "instance destroyed")
	case fact.AggregateInstanceDestructionReverted:
		return line(f.Envelope, logIn, sim.Aggregate, f.Handler.Identity().Name+" "+f.InstanceID, "destruction of instance reverted")
	case fact.EventRecordedByAggregate:
		return produced(f.EventEnvelope, sim.Aggregate, f.Handler.Identity().Name+" "+f.InstanceID, "recorded an event")
	case fact.MessageLoggedByAggregate:
		return line(f.Envelope, logIn, sim.Aggregate, f.Handler.Identity().Name+" "+f.InstanceID, fmt.Sprintf(f.LogFormat, f.LogArguments...))

	case fact.ProcessInstanceLoaded:
		return line(f.Envelope, logIn, sim.Process, f.Handler.Identity().Name+" "+f.InstanceID, "loaded an existing instance")
	case fact.ProcessEventIgnored:
		return line(f.Envelope, logIn, sim.Process, f.Handler.Identity().Name, "event ignored because it was not routed to any instance")
	case fact.ProcessTimeoutIgnored:
		return line(f.Envelope, logIn, sim.Process, f.Handler.Identity().Name+" "+f.InstanceID, "timeout ignored because the target instance no longer exists")
	case fact.ProcessInstanceNotFound:
		return line(f.Envelope, logIn, sim.Process, f.Handler.Identity().Name+" "+f.InstanceID, "instance does not yet exist")
	case fact.ProcessInstanceBegun:
		return line(f.Envelope, logIn, sim.Process, f.Handler.Identity().Name+" "+f.InstanceID, "instance begun")
	case fact.ProcessInstanceEnded:
		return line(f.Envelope, logIn, sim.Process, f.Handler.Identity().Name+" "+f.InstanceID, "instance ended")
	case fact.ProcessInstanceEndingReverted:
		return line(f.Envelope, logIn, sim.Process, f.Handler.Identity().Name+" "+f.InstanceID, "reverted ending process instance")
	case fact.CommandExecutedByProcess:
		return produced(f.CommandEnvelope, sim.Process, f.Handler.Identity().Name+" "+f.InstanceID, "executed a command")
	case fact.TimeoutScheduledByProcess:
		return produced(f.TimeoutEnvelope, sim.Process, f.Handler.Identity().Name+" "+f.InstanceID, "scheduled a timeout for "+rfc3339(f.TimeoutEnvelope.ScheduledFor))
	case fact.MessageLoggedByProcess:
		return line(f.Envelope, logIn, sim.Process, f.Handler.Identity().Name+" "+f.InstanceID, fmt.Sprintf(f.LogFormat, f.LogArguments...))

	case fact.EventRecordedByIntegration:
		return produced(f.EventEnvelope, sim.Integration, f.Handler.Identity().Name, "recorded an event")
	case fact.MessageLoggedByIntegration:
		return line(f.Envelope, logIn, sim.Integration, f.Handler.Identity().Name, fmt.Sprintf(f.LogFormat, f.LogArguments...))

	case fact.ProjectionCompactionCompleted:
		if f.Error == nil {
			return line(nil, logNone, sim.Projection, f.Handler.Identity().Name, "compacted")
		}
		return &logLine{nil, logNone, logSymbols[sim.Projection], true, []string{f.Handler.Identity().Name, "compaction failed: " + f.Error.Error()}}
	case fact.MessageLoggedByProjection:
		dir := logIn
		if f.Envelope == nil {
			dir = logNone
		}
		return line(f.Envelope, dir, sim.Projection, f.Handler.Identity().Name, fmt.Sprintf(f.LogFormat, f.LogArguments...))
	}
	return nil
}

func rfc3339(t time.Time) string {
	_, offset := t.Zone()
	s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second())
	if offset == 0 {
		return s + "Z"
	}
	sign := "+"
	if offset < 0 {
		sign, offset = "-", -offset
	}
	return s + fmt.Sprintf("%s%02d:%02d", sign, offset/3600, offset/60%60)
}

// logJudge is an observer that checks the lines logged for each fact.
type logJudge struct {
	m       sync.Mutex
	lines   []string
	logger  *fact.Logger
	err     error
	logged  int
	unknown int
	st      *prop.Stats
}

func newLogJudge(st *prop.Stats) *logJudge {
	j := &logJudge{st: st}
	j.logger = fact.NewLogger(func(s string) { j.lines = append(j.lines, s) })
	return j
}

func (j *logJudge) Notify(f fact.Fact) {
	j.m.Lock()
	defer j.m.Unlock()

	j.lines = nil
	j.logger.Notify(f)

	var want []string
	if l := logSpec(f); l != nil {
		want = []string{l.String()}
		j.logged++
	} else {
		j.unknown++
	}
	j.st.Class(fmt.Sprintf("%T", f))
	if !slices.Equal(j.lines, want) && j.err == nil {
		j.err = fmt.Errorf("logging %T gives %q, want %q", f, j.lines, want)
	}
}

func (j *logJudge) judge() error {
	j.m.Lock()
	defer j.m.Unlock()
	j.st.NonTrivial(j.logged >= 5 && j.unknown > 0)
	return j.err
}

func (c *p27Facts) judge(st *prop.Stats) error {
	var (
		cfg = sim.New(c.App).Config
		j   = newLogJudge(st)
	)
	for _, f := range c.Facts {
		j.Notify(f.fact(cfg))
	}
	return j.judge()
}

func p27Ops(c *sim.Case, st *prop.Stats) error {
	var (
		w = sim.NewEngine(c.App, engine.EnableProjectionCompactionDuringHandling(c.Compact))
		j = newLogJudge(st)
	)
	for i, op := range c.Ops {
		if r := w.Run(i, op, engine.WithObserver(j)); r.Panicked {
			return fmt.Errorf("operation %d panicked: %v", i, r.Panic)
		}
	}
	return j.judge()
}

func p27Test(c *tk.Case, st *prop.Stats) error {
	r := tk.Begin(c)
	var want, got []string
	for i, s := range c.Steps {
		res := r.Step(i, s)
		if res.Panicked {
			return fmt.Errorf("step %d panicked: %v", i, res.Panic)
		}
		for _, x := range res.Of("Log") {
			if strings.HasPrefix(x.Text, "= ") {
				got = append(got, x.Text)
			}
		}
	}

	other := 0
	for _, e := range r.World.Trace() {
		if e.Kind == sim.Fact {
			if l := logSpec(e.Fact); l != nil {
				want = append(want, l.String())
			} else {
				other++
			}
		}
	}

	// The observers of a projection's compaction are not notified in any
	// particular order with respect to those of the message being handled.
	for _, h := range c.App.Handlers {
		if h.Type == sim.Projection {
			slices.Sort(want)
			slices.Sort(got)
			break
		}
	}
	if !slices.Equal(got, want) {
		return fmt.Errorf("the test logged:\n%s\nwant:\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	st.NonTrivial(len(want) >= 5 && other > 0)
	return nil
}
