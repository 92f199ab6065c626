package sim

import (
	"fmt"
	"slices"
	"strings"

	"pgregory.net/rapid"
)

// Gen configures the generation of applications and messages.
type Gen struct {
	// Types limits the types of handlers.
	Types []string

	// MinHandlers and MaxHandlers limit the number of handlers of each type.
	Min, Max map[string]int

	// Disabled allows handlers to be disabled by configuration.
	Disabled bool

	// SingleConsumer limits each event type to having one consumer.
	SingleConsumer bool

	// MaxMessages limits the size of message trees, MaxDepth their depth.
	MaxMessages, MaxDepth int

	// MaxOps limits the number of operations in a script.
	MaxOps int

	// Instances are the IDs of the instances that messages are routed to. By
	// default, App() draws NumInstances IDs.
	Instances    []string
	NumInstances int

	// Ops are additional operations that may occur in scripts, other than
	// producing messages.
	Ops []string

	// Times are the offsets used for the times of timeouts and operations.
	Times []int64

	// Schedule increases the chance of timeouts being scheduled.
	Schedule int

	// ProjectionOutcomes enables scripted outcomes for projections.
	ProjectionOutcomes bool

	// Names overrides the handler names.
	Names func(t *rapid.T, n int) []string

	// ErrorKinds enables errors that are returned by several handlers, and
	// errors that are caused by a cancelled context.
	ErrorKinds bool

	// Large is the chance (one in n) of a message tree being far larger than
	// MaxMessages.
	Large int

	// Wide is the chance (one in n) of an application having far more handlers
	// than usual.
	Wide int

	// Long is the chance (one in n) of each operation of a history being
	// repeated many times.
	Long int

	errors int
}

// Defaults fills in default values.
func (g Gen) Defaults() *Gen {
	if g.Types == nil {
		g.Types = []string{Aggregate, Process, Integration, Projection}
	}
	if g.Max == nil {
		g.Max = map[string]int{Aggregate: 2, Process: 2, Integration: 2, Projection: 2}
	}
	if g.MaxMessages == 0 {
		g.MaxMessages = 16
	}
	if g.MaxDepth == 0 {
		g.MaxDepth = 6
	}
	if g.MaxOps == 0 {
		g.MaxOps = 4
	}
	if g.NumInstances == 0 {
		g.NumInstances = 3
	}
	if g.Wide == 0 {
		g.Wide = 150
	}
	if g.Long == 0 {
		g.Long = 250
	}
	if g.Times == nil {
		g.Times = []int64{0, 1, 999, 1000, 1001, 2000, 3000, 5000, 5000000, 3600000, 7200000}
	}
	return &g
}

// Int draws an integer.
func Int(t *rapid.T, min, max int) int {
	return rapid.IntRange(min, max).Draw(t, "n")
}

// Bool draws a boolean that is true with a chance of one in n.
func OneIn(t *rapid.T, n int) bool {
	return Int(t, 1, n) == n
}

// Count draws a number of things, which is usually between min and max, but
// may be as large as limit.
func Count(t *rapid.T, min, max, limit int) int {
	if OneIn(t, 40) {
		return Int(t, max, limit)
	}
	return Int(t, min, max)
}

// Pick draws an element of s.
func Pick[T any](t *rapid.T, s []T) T {
	return s[Int(t, 0, len(s)-1)]
}

// Subset draws a subset of s with at least min elements.
func Subset[T any](t *rapid.T, s []T, min int) []T {
	var res, rest []T
	for _, x := range s {
		if rapid.Bool().Draw(t, "in") {
			res = append(res, x)
		} else {
			rest = append(rest, x)
		}
	}
	for len(res) < min && len(rest) > 0 {
		i := Int(t, 0, len(rest)-1)
		res = append(res, rest[i])
		rest = append(append([]T(nil), rest[:i]...), rest[i+1:]...)
	}
	return res
}

// confusable contains sets of instance IDs that are easily mistaken for each
// other.
var confusable = [][]string{
	{"x", " x", "x "},
	{"ID", "id", "Id"},
	{"1", "01", "1.0"},
	{"a/b", "a", "b"},
	{"é", "e\u0301", "e"},
	{"%s", "%!s(MISSING)", "%%s"},
	{"nil", "<nil>", "0"},
	{"a\x00", "a", "\x00a"},
	{strings.Repeat("l", 300), strings.Repeat("l", 299) + "m", strings.Repeat("l", 301)},
	{strings.Repeat("p", 64) + "-1", strings.Repeat("p", 64) + "-2", strings.Repeat("p", 64)},
	{"0-" + strings.Repeat("s", 64), "1-" + strings.Repeat("s", 64), strings.Repeat("s", 64)},
	{"95d1e8b4-52a1-4dcd-9dc0-0b8c8a2b1a9f", "95D1E8B4-52A1-4DCD-9DC0-0B8C8A2B1A9F", "95d1e8b452a14dcd9dc00b8c8a2b1a9f"},
}

// App draws an application.
func (g *Gen) App(t *rapid.T) *App {
	a := &App{}

	if g.Instances == nil {
		ids := []string{"a", "b", "c"}
		if OneIn(t, 2) {
			ids = Pick(t, confusable)
		}
		g.Instances = ids[:g.NumInstances]
	}

	number := func(typ string, limit int) int {
		if !slices.Contains(g.Types, typ) {
			return 0
		}
		return Int(t, min(limit, g.Min[typ]), min(limit, g.Max[typ]))
	}

	nAgg := number(Aggregate, 3)
	nInt := number(Integration, 4-nAgg)
	nProc := number(Process, 3)
	nProj := number(Projection, 3)
	if !g.SingleConsumer && OneIn(t, g.Wide) {
		if g.Max[Process] > 1 {
			nProc += Int(t, 0, 10)
		}
		if g.Max[Projection] > 1 {
			nProj += Int(t, 0, 10)
		}
	}
	if nAgg+nInt+nProc+nProj == 0 {
		if slices.Contains(g.Types, Aggregate) {
			nAgg = 1
		} else if slices.Contains(g.Types, Process) {
			nProc = 1
		} else if slices.Contains(g.Types, Integration) {
			nInt = 1
		} else {
			nProj = 1
		}
	}

	add := func(typ string, n int) {
		for i := 0; i < n; i++ {
			h := &Handler{Type: typ}
			if h.Type == Projection && OneIn(t, 3) {
				h.Broadcast = Int(t, 1, 2)
			}
			if h.Type == Process && OneIn(t, 4) {
				h.Root = Pick(t, []string{"map", "stateless"})
			}
			if g.Disabled {
				h.Disabled = OneIn(t, 8)
			}
			a.Handlers = append(a.Handlers, h)
		}
	}

	add(Aggregate, nAgg)
	add(Integration, nInt)
	add(Process, nProc)
	add(Projection, nProj)

	var names []string
	if g.Names != nil {
		names = g.Names(t, len(a.Handlers))
	} else {
		for i, h := range a.Handlers {
			names = append(names, fmt.Sprintf("%s-%d", h.Type[:4], i))
		}
	}
	for i, h := range a.Handlers {
		h.Name = names[i]
	}

	// Command types are each consumed by one handler at most, and event types
	// are each produced by one handler at most.
	nCmd := nAgg + nInt
	cmds := rapid.Permutation(Commands).Draw(t, "commands")
	for i, c := range cmds {
		if i < nCmd {
			a.Handlers[i].Consumes = append(a.Handlers[i].Consumes, c)
		} else if nCmd > 0 && rapid.Bool().Draw(t, "used") {
			h := a.Handlers[Int(t, 0, nCmd-1)]
			h.Consumes = append(h.Consumes, c)
		}
	}

	evts := rapid.Permutation(Events).Draw(t, "events")
	for i, e := range evts {
		if i < nAgg {
			a.Handlers[i].Produces = append(a.Handlers[i].Produces, e)
		} else if nCmd > 0 && !OneIn(t, 4) {
			h := a.Handlers[Int(t, 0, nCmd-1)]
			h.Produces = append(h.Produces, e)
		}
	}

	taken := map[string]bool{}
	for _, h := range a.Handlers[nCmd:] {
		if g.SingleConsumer {
			var free []string
			for _, e := range Events {
				if !taken[e] {
					free = append(free, e)
				}
			}
			h.Consumes = Subset(t, free, 1)
			if len(h.Consumes) > 2 {
				h.Consumes = h.Consumes[:2]
			}
			for _, e := range h.Consumes {
				taken[e] = true
			}
		} else {
			h.Consumes = Subset(t, Events, 1)
		}

		if h.Type == Process {
			h.Produces = Subset(t, Commands, 1)
			h.Timeouts = Subset(t, Timeouts, 0)
		}

		if h.Type == Projection && g.ProjectionOutcomes {
			h.Version = g.outcomes(t, "version")
			h.Close = g.outcomes(t, "close")
			h.Compact = g.outcomes(t, "compact")
		}
	}

	return a
}

func (g *Gen) outcomes(t *rapid.T, method string) []Op {
	var ops []Op
	for range Int(t, 0, 3) {
		switch Int(t, 0, 4) {
		case 0:
			n := 0
			if method == "version" {
				n = Int(t, 0, 1)
			}
			ops = append(ops, Op{K: Fail, S: g.Error(t, method), N: n})
		case 1:
			if method == "close" {
				ops = append(ops, Op{})
			} else {
				s := Pick(t, []string{"\x01", "\x00", "v"})
				if method == "version" && OneIn(t, 4) {
					s = "" // empty, but not nil
				}
				ops = append(ops, Op{K: Log, S: s, N: Int(t, 1, 3)})
			}
		default:
			ops = append(ops, Op{})
		}
	}
	return ops
}

// Error returns an error text, which is unique unless g.ErrorKinds is true.
func (g *Gen) Error(t *rapid.T, what string) string {
	g.errors++
	if g.ErrorKinds {
		switch Int(t, 0, 7) {
		case 4, 5, 6:
			return SharedError
		case 7:
			return fmt.Sprintf("%s %s error #%d>", CanceledError, what, g.errors)
		}
	}
	return fmt.Sprintf("<%s error #%d>", what, g.errors)
}

// Tree draws a message of one of the given types, including the scripts that
// the application's handlers follow when they handle it.
func (g *Gen) Tree(t *rapid.T, a *App, types []string) *Msg {
	budget := Int(t, max(1, g.MaxMessages/4), g.MaxMessages)
	if g.Large > 0 && OneIn(t, g.Large) {
		return g.large(t, a, types)
	}
	return g.tree(t, a, Pick(t, types), g.MaxDepth, &budget, "")
}

// large draws a large message tree.
func (g *Gen) large(t *rapid.T, a *App, types []string) *Msg {
	x := *g
	x.MaxOps *= 3
	x.MaxDepth += 4
	budget := Int(t, 20, 250)
	return x.tree(t, a, Pick(t, types), x.MaxDepth, &budget, "")
}

func (g *Gen) tree(t *rapid.T, a *App, typ string, depth int, budget *int, origin string) *Msg {
	*budget--
	m := &Msg{T: typ}
	m.I = Pick(t, g.Instances)

	handlers := a.ConsumersOf(typ)
	if typ[0] == 'T' {
		handlers = []*Handler{a.Handler(origin)}
	}

	for _, h := range handlers {
		ops := g.script(t, a, h, m, depth, budget)
		if len(ops) > 0 {
			if m.Do == nil {
				m.Do = map[string][]Op{}
			}
			m.Do[h.Name] = ops
		}
	}

	return m
}

func (g *Gen) script(t *rapid.T, a *App, h *Handler, m *Msg, depth int, budget *int) []Op {
	var (
		ops  []Op
		pool []string
	)

	switch h.Type {
	case Aggregate, Integration:
		if len(h.Produces) > 0 {
			pool = append(pool, Record, Record, Record)
		}
	case Process:
		pool = append(pool, Execute, Execute)
		if len(h.Timeouts) > 0 {
			pool = append(pool, Schedule, Schedule)
			for range g.Schedule {
				pool = append(pool, Schedule)
			}
		}
	}

	for _, k := range g.Ops {
		switch k {
		case Destroy:
			if h.Type == Aggregate {
				pool = append(pool, k, k)
			}
		case RouteEmpty, RoutePanic, NilRoot:
			if h.Type == Aggregate || (h.Type == Process && m.T[0] == 'E') {
				pool = append(pool, k)
			}
		case BadType, BadContent:
			if h.Type != Projection {
				pool = append(pool, k)
			}
		case ApplyPanic, LoadPanic:
			if h.Type == Aggregate {
				pool = append(pool, k)
			}
		case End, RouteIgnore, RouteFail:
			if h.Type == Process {
				pool = append(pool, k)
			}
		case Fail:
			if h.Type != Aggregate {
				pool = append(pool, k)
			}
		case Conflict:
			if h.Type == Projection {
				pool = append(pool, k)
			}
		default:
			pool = append(pool, k)
		}
	}

	if len(pool) == 0 {
		return nil
	}

	for range Int(t, 0, g.MaxOps) {
		op := Op{K: Pick(t, pool)}

		if op.K == BadType || op.K == BadContent || op.K == ApplyPanic || op.K == LoadPanic {
			var ok bool
			op, ok = g.violation(t, h, op.K)
			if !ok {
				continue
			}
			ops = append(ops, op)
			continue
		}

		switch op.K {
		case Record, Execute:
			if depth == 0 || *budget <= 0 {
				continue
			}
			op.M = g.tree(t, a, Pick(t, h.Produces), depth-1, budget, h.Name)
		case Schedule:
			if depth == 0 || *budget <= 0 {
				continue
			}
			op.M = g.tree(t, a, Pick(t, h.Timeouts), depth-1, budget, h.Name)
			op.At = Pick(t, g.Times)
		case Log:
			op.S = Pick(t, []string{"plain", "with args %v %v", "100%%", "", "multi\nline"})
			op.N = Int(t, 0, 4)
		case Fail, RouteFail:
			op.S = g.Error(t, "handler")
		case Yield:
			op.N = Int(t, 1, 20)
		case Panic, RoutePanic:
			op.S = Pick(t, PanicKinds)
		}

		ops = append(ops, op)

		if op.K == Fail {
			break
		}
	}

	return ops
}

// The kinds of operation that violate the contract of a handler, as used in
// Gen.Ops. They are translated to Record, Execute or Schedule.
const (
	BadType    = "bad-type"    // produce a message of a type that is not configured
	BadContent = "bad-content" // produce a message that is invalid
	ApplyPanic = "apply-panic" // record an event that can not be applied
	LoadPanic  = "load-panic"  // record an event that can not be applied later on
)

// violation draws an operation that violates the contract of h.
func (g *Gen) violation(t *rapid.T, h *Handler, k string) (Op, bool) {
	op := Op{K: Record}
	legal, all := h.Produces, Events

	if h.Type == Process {
		op.K = Execute
		all = Commands
		if rapid.Bool().Draw(t, "timeout") {
			op.K = Schedule
			op.At = Pick(t, g.Times)
			legal, all = h.Timeouts, Timeouts
		}
	}

	types := legal
	if k == BadType {
		types = nil
		for _, typ := range all {
			if !slices.Contains(legal, typ) {
				types = append(types, typ)
			}
		}
	}
	if len(types) == 0 {
		return op, false
	}

	op.M = &Msg{T: Pick(t, types), I: Pick(t, g.Instances)}
	switch k {
	case BadContent:
		op.M.Bad = g.Error(t, "validation")
	case ApplyPanic:
		op.M.Do = map[string][]Op{
			ApplyScript: {{K: Panic, S: Pick(t, PanicKinds)}},
		}
	case LoadPanic:
		op.M.Do = map[string][]Op{
			LoadScript: {{K: Panic, S: Pick(t, PanicKinds)}},
		}
	}
	return op, true
}

// Opts draws options that enable and disable handlers.
func (g *Gen) Opts(t *rapid.T, a *App, maxOpts int) []Opt {
	var opts []Opt
	for range Count(t, 0, maxOpts, 16) {
		if rapid.Bool().Draw(t, "by-type") {
			opts = append(opts, Opt{
				Type: Pick(t, []string{Aggregate, Process, Integration, Projection}),
				On:   rapid.Bool().Draw(t, "on"),
			})
		} else {
			opts = append(opts, Opt{
				Name: Pick(t, a.Handlers).Name,
				On:   rapid.Bool().Draw(t, "on"),
			})
		}
	}
	return opts
}

// History draws a sequence of operations.
func (g *Gen) History(t *rapid.T, a *App, minOps, maxOps int, kinds []string, optsOneIn int) []*EngineOp {
	var ops []*EngineOp

	for range Int(t, minOps, maxOps) {
		op := &EngineOp{
			K:   Pick(t, kinds),
			Now: Pick(t, g.Times),
		}
		if op.K == "dispatch" {
			op.M = g.Tree(t, a, g.RootTypes(t, a))
		}
		if optsOneIn > 0 && op.K != "reset" && OneIn(t, optsOneIn) {
			op.Opts = g.Opts(t, a, 4)
		}
		ops = append(ops, op)
	}

	// Time usually moves forwards.
	if !OneIn(t, 4) {
		var now []int64
		for _, op := range ops {
			now = append(now, op.Now)
		}
		slices.Sort(now)
		for i, op := range ops {
			op.Now = now[i]
		}
	}

	if OneIn(t, g.Long) {
		ops = g.Flood(ops, Int(t, 50, 250), false)
	}

	next := 0
	for _, op := range ops {
		AssignKeys(&next, op.M)
	}

	var roots []*Msg
	anon := OneIn(t, 3)
	for _, op := range ops {
		op.M.Walk(func(m *Msg) { m.Anon = anon })
		roots = append(roots, op.M)
	}
	Describe(t, roots...)

	return ops
}

// Describe draws the descriptions of messages.
func Describe(t *rapid.T, roots ...*Msg) {
	style := Int(t, 0, 5)
	for _, r := range roots {
		r.Walk(func(m *Msg) { m.Desc = description(style, m.K) })
	}
}

// Flood repeats each of the operations in ops until they involve about n
// messages. If distinct is true, each repetition uses different instances.
func (g *Gen) Flood(ops []*EngineOp, n int, distinct bool) []*EngineOp {
	size := 0
	for _, op := range ops {
		size += op.M.Size()
	}
	if size == 0 {
		return ops
	}

	var res []*EngineOp
	for _, op := range ops {
		if op.K == "reset" {
			// Without repeating it, it is still likely to matter.
			res = append(res, op)
			continue
		}
		for i := range n/size + 1 {
			c := *op
			c.M = op.M.Clone()
			c.M.Walk(func(m *Msg) {
				if distinct {
					// The cost of loading an instance is proportional to
					// the length of its history.
					m.I = fmt.Sprintf("%s-%d", m.I, i)
				}
				for _, ops := range m.Do {
					for j := range ops {
						if x := &ops[j]; (x.K == Fail || x.K == RouteFail) && x.S != SharedError {
							x.S += fmt.Sprintf("(%d)", i)
						}
					}
				}
			})
			res = append(res, &c)
		}
	}
	next := 0
	for _, op := range res {
		AssignKeys(&next, op.M)
	}
	return res
}

// Repeat makes some of the messages within ops occur more than once. See Link().
func (g *Gen) Repeat(t *rapid.T, ops []*EngineOp) []*EngineOp {
	var res []*EngineOp
	for _, op := range ops {
		res = append(res, op)
		op.M.Walk(func(m *Msg) {
			for _, h := range sortedKeys(m.Do) {
				for i, x := range m.Do[h] {
					if x.M != nil && x.M.Bad == "" && x.M.Size() <= 4 && OneIn(t, 4) {
						x.M.Shared = true
						n := Int(t, 1, 2)
						m.Do[h] = slices.Insert(m.Do[h], i, slices.Repeat([]Op{x}, n)...)
						break
					}
				}
			}
		})
		if op.K == "dispatch" && op.M.Size() <= 10 && OneIn(t, 4) {
			op.M.Shared = true
			again := *op
			res = append(res, &again)
		}
	}
	return res
}

// description returns the description of a message, or nil if it is described
// by its key.
func description(style, k int) *string {
	texts := []string{"", "the same", "50% %d %s", "two\nlines"}
	switch style {
	case 3:
		return &texts[0]
	case 4:
		return &texts[1]
	case 5:
		if k%5 < len(texts) {
			return &texts[k%5]
		}
	}
	return nil
}

// RootTypes draws the types of messages that are worth dispatching.
func (g *Gen) RootTypes(t *rapid.T, a *App) []string {
	types := a.Consumed()

	// Most timeouts and commands are the result of events that are handled by
	// processes.
	if rapid.Bool().Draw(t, "process") {
		var res []string
		for _, typ := range types {
			for _, h := range a.ConsumersOf(typ) {
				if h.Type == Process {
					res = append(res, typ)
					break
				}
			}
		}
		if len(res) > 0 {
			return res
		}
	}

	return types
}

// Case is an application and a history of operations.
type Case struct {
	App *App
	Ops []*EngineOp

	// Compact enables compaction during handling.
	Compact bool `json:",omitempty"`
}

// Prune removes scripts and times that have no effect, so that shrunk cases
// are easy to read.
func (c *Case) String() string {
	return fmt.Sprintf("%d handlers, %d operations", len(c.App.Handlers), len(c.Ops))
}

// Timer draws an event that causes some process to schedule a timeout, the
// handling of which produces further messages. It returns nil if there is no
// suitable process.
func (g *Gen) Timer(t *rapid.T, a *App) *Msg {
	var procs []*Handler
	for _, h := range a.Handlers {
		if h.Type == Process && len(h.Timeouts) > 0 {
			procs = append(procs, h)
		}
	}
	if len(procs) == 0 {
		return nil
	}

	h := Pick(t, procs)
	budget := g.MaxMessages
	m := &Msg{T: Pick(t, h.Consumes), I: Pick(t, g.Instances)}
	var ops []Op
	for range Int(t, 1, 2) {
		tm := &Msg{T: Pick(t, h.Timeouts), I: m.I}
		var do []Op
		for range Int(t, 1, 2) {
			do = append(do, Op{K: Execute, M: g.tree(t, a, Pick(t, h.Produces), 2, &budget, h.Name)})
		}
		tm.Do = map[string][]Op{h.Name: do}
		ops = append(ops, Op{K: Schedule, M: tm, At: Pick(t, g.Times)})
	}
	m.Do = map[string][]Op{h.Name: ops}
	return m
}
