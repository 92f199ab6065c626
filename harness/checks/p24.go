package checks

import (
	"errors"
	"fmt"
	"path/filepath"
	"runtime"
	"slices"
	"strings"

	"github.com/dogmatiq/testkit"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

type p24Case struct {
	Checks []*p24Check

	// Reuse is true if the same expectation is used for all of the checks,
	// as opposed to a new one being constructed for each.
	Reuse bool `json:",omitempty"`
}

type p24Check struct {
	Wrap   string `json:",omitempty"` // "", "all", "none" or "not"
	Helper bool   `json:",omitempty"` // the function given to testkit is a helper itself
	Ops    []*satisfyOp
}

// satisfyOp is an operation performed by a user-defined check.
type satisfyOp struct {
	ID int
	K  string
	S  string `json:",omitempty"`

	// More is the number of arguments that are logged in addition to S.
	More int `json:",omitempty"`

	// Bare is true if there are no arguments for what is formatted.
	Bare bool `json:",omitempty"`

	// Path is the chain of functions, by index, through which the operation
	// is performed.
	Path []int `json:",omitempty"`

	// Help is a bit mask of those functions in Path that mark themselves as a
	// helper.
	Help int `json:",omitempty"`

	// Ops are the operations of a cleanup function.
	Ops []*satisfyOp `json:",omitempty"`
}

func init() {
	prop.Register("P24", prop.Options{
		Rule: "A case is 1 or 2 user-defined checks, each a program of up to 6 operations performed through up to 12 nested functions some of which are helpers, with cleanup functions that are such programs as well. " +
			"It is non-trivial if a check has at least 2 cleanup functions and some operation stops the check or a cleanup function, or if a helper function is involved in failing or skipping a check.",
		Quick:    300000,
		Thorough: 1800000,
	}, p24Draw, func(cp **p24Case, st *prop.Stats) error {
		return (*cp).judge(st)
	})
}

func p24Draw(t *rapid.T) *p24Case {
	c := &p24Case{Reuse: rapid.Bool().Draw(t, "reuse")}
	id := 0
	for range sim.Int(t, 1, 2) {
		k := &p24Check{
			Wrap:   sim.Pick(t, []string{"", "", "", "all", "none", "not"}),
			Helper: sim.OneIn(t, 5),
			Ops:    p24Ops(t, &id, 2),
		}
		c.Checks = append(c.Checks, k)
	}
	return c
}

func p24Ops(t *rapid.T, id *int, depth int) []*satisfyOp {
	var ops []*satisfyOp
	kinds := []string{
		"log", "logf", "fail", "error", "errorf", // continue
		"failnow", "fatal", "fatalf", "skip", "skipf", "skipnow", // stop
		"panic", "runtime-panic", "helper", "state", "nop",
	}
	if rapid.Bool().Draw(t, "calm") {
		kinds = []string{"log", "logf", "log", "state", "fail", "errorf", "skip"}
	}
	if depth > 0 {
		kinds = append(kinds, "cleanup", "cleanup", "cleanup")
	}
	for range sim.Count(t, 0, 6, 25) {
		*id++
		op := &satisfyOp{ID: *id, K: sim.Pick(t, kinds)}
		if op.K == "cleanup" {
			op.Ops = p24Ops(t, id, depth-1)
		}
		op.S = fmt.Sprintf("text %d", op.ID)
		if sim.OneIn(t, 4) {
			op.S += sim.Pick(t, []string{"\n  more", " %d %s", " 100%%", "\n\n✓ pass", " <message>"})
		}
		if sim.OneIn(t, 3) {
			op.More = sim.Int(t, 1, 4)
		} else {
			op.Bare = sim.OneIn(t, 3)
		}
		if op.K != "helper" {
			n := 0
			if rapid.Bool().Draw(t, "nested") {
				n = sim.Pick(t, []int{1, 1, 2, 3, 12})
			}
			for i := range n {
				fn := sim.Pick(t, []int{0, 1, 2, 3, 4, satisfyOuter, satisfyOuter})
				if i > 0 && op.Path[i-1] == satisfyOuter && rapid.Bool().Draw(t, "inner") {
					fn = satisfyInner
				}
				op.Path = append(op.Path, fn)
				if rapid.Bool().Draw(t, "help") {
					op.Help |= 1 << i
				}
			}
		}
		ops = append(ops, op)
	}
	return ops
}

// satisfyRun is the state of a running check.
type satisfyRun struct {
	t     *testkit.SatisfyT
	ops   []*satisfyOp
	cur   *satisfyOp
	depth int // index of the next function in the path of the current operation

	frames  []*satisfyFrame
	helpers map[int]bool

	// What actually happened.
	trace []string

	// What is known to have caused the check to fail or be skipped.
	cause       string
	viaHelper   bool
	failed      bool
	skipped     bool
	stateFailed error
}

type satisfyFrame struct {
	fn   int
	file string
	line int
}

const (
	satisfyMainFunc = 5
	satisfyPred     = 6
	satisfyCleanup  = 7
	satisfyOuter    = 8
	satisfyInner    = 9
)

// enter is called when a function is entered. It returns a function that must
// be called when it is left.
func (x *satisfyRun) enter(fn int) func() {
	x.frames = append(x.frames, &satisfyFrame{fn: fn})
	n := len(x.frames)
	return func() { x.frames = x.frames[:n-1] }
}

// mark is called on the line where something is called.
func (x *satisfyRun) mark() *satisfyRun {
	f := x.frames[len(x.frames)-1]
	_, f.file, f.line, _ = runtime.Caller(1)
	f.file = filepath.Base(f.file)

	if x.cur == nil || x.depth < len(x.cur.Path) {
		// Just calling another function.
		return x
	}

	name := map[string]string{
		"fail": "Fail", "failnow": "FailNow", "error": "Error", "errorf": "Errorf", "fatal": "Fatal", "fatalf": "Fatalf",
		"skip": "Skip", "skipf": "Skipf", "skipnow": "SkipNow",
	}[x.cur.K]
	if name == "" {
		return x
	}

	if strings.HasPrefix(name, "Skip") {
		x.skipped = true
	} else {
		x.failed = true
	}

	if x.cause == "" {
		top := len(x.frames) - 1
		i := top
		for i > 0 && x.helpers[x.frames[i].fn] {
			i--
		}
		f := x.frames[i]
		how := "called at"
		if i != top {
			how = "called indirectly by call at"
			x.viaHelper = true
		}
		x.cause = fmt.Sprintf("%s() %s %s:%d", name, how, f.file, f.line)
	}
	return x
}

// more moves on to the next operation of the current function.
func (x *satisfyRun) more() bool {
	if len(x.ops) == 0 {
		return false
	}
	x.cur, x.ops = x.ops[0], x.ops[1:]
	x.depth = 0
	x.trace = append(x.trace, fmt.Sprint(x.cur.ID))
	return true
}

// next returns the index of the next function.
func (x *satisfyRun) next() int {
	fn := x.cur.Path[x.depth]
	return fn
}

// helper returns true if the current function is to be a helper.
func (x *satisfyRun) helper() bool {
	f := x.frames[len(x.frames)-1]
	if f.fn == satisfyMainFunc {
		return false
	}
	h := x.cur.Help&(1<<x.depth) != 0
	x.depth++
	if h {
		x.helpers[f.fn] = true
	}
	return h
}

// op returns the operation to perform within the current function.
func (x *satisfyRun) op() *satisfyOp {
	if x.depth < len(x.cur.Path) {
		return &satisfyOp{K: "next"}
	}
	return x.cur
}

// other performs operations the location of which is irrelevant.
func (x *satisfyRun) other(op *satisfyOp) {
	switch op.K {
	case "panic":
		panic(satisfyPanic(op))
	case "runtime-panic":
		var p *satisfyOp
		p.ID++
	case "state":
		if x.t.Failed() != x.failed {
			x.stateFailed = fmt.Errorf("Failed() returned %t at operation %d", !x.failed, op.ID)
		}
		if x.t.Skipped() != x.skipped {
			x.stateFailed = fmt.Errorf("Skipped() returned %t at operation %d", !x.skipped, op.ID)
		}
		x.t.Parallel()
		_ = x.t.Name()
	case "cleanup":
		x.t.Cleanup(func() {
			defer x.enter(satisfyCleanup)()
			x.trace = append(x.trace, fmt.Sprintf("cleanup %d", op.ID))
			x.ops = op.Ops
			x.cur = nil
			satisfyMain(x.mark())
			x.trace = append(x.trace, fmt.Sprintf("end of %d", op.ID))
		})
	}
}

// args returns the arguments of operations that log something.
func (op *satisfyOp) args() []any {
	if op.bare() {
		return nil
	}
	return append([]any{op.S}, []any{"a", 1, 2, "b"}[:op.More]...)
}

// bare returns true if the operation formats something without arguments.
func (op *satisfyOp) bare() bool {
	return op.Bare && strings.HasSuffix(op.K, "f")
}

// format returns the format of operations that log something.
func (op *satisfyOp) format() string {
	if op.bare() {
		return strings.ReplaceAll(op.S, "%", "%%")
	}
	return "%s" + strings.Repeat("+%v", op.More)
}

// text returns what is logged by operations that log something. Without a format
// the arguments are separated by spaces, like those of a Go test.
func (op *satisfyOp) text() string {
	if strings.HasSuffix(op.K, "f") {
		return fmt.Sprintf(op.format(), op.args()...)
	}
	return strings.TrimSuffix(fmt.Sprintln(op.args()...), "\n")
}

func satisfyPanic(op *satisfyOp) error {
	return fmt.Errorf("<panic %d>", op.ID)
}

// satisfyModel predicts the behavior of a check.
type satisfyModel struct {
	trace    []string
	logs     []string
	failed   bool
	skipped  bool
	panics   []*satisfyOp
	cleanups []*satisfyOp
	stopped  bool
}

func (m *satisfyModel) run(ops []*satisfyOp) (completed bool) {
	for _, op := range ops {
		m.trace = append(m.trace, fmt.Sprint(op.ID))
		switch op.K {
		case "log", "logf", "error", "errorf", "fatal", "fatalf", "skip", "skipf":
			m.logs = append(m.logs, op.text())
		}
		switch op.K {
		case "fail", "error", "errorf", "failnow", "fatal", "fatalf":
			m.failed = true
		case "skip", "skipf", "skipnow":
			m.skipped = true
		}
		switch op.K {
		case "failnow", "fatal", "fatalf", "skip", "skipf", "skipnow":
			m.stopped = true
			return false
		case "panic", "runtime-panic":
			m.panics = append(m.panics, op)
			return false
		case "cleanup":
			m.cleanups = append(m.cleanups, op)
		}
	}
	return true
}

func predictSatisfy(k *p24Check) (m *satisfyModel, cleanups int) {
	m = &satisfyModel{}
	m.run(k.Ops)
	for len(m.cleanups) > 0 {
		cleanups++
		op := m.cleanups[len(m.cleanups)-1]
		m.cleanups = m.cleanups[:len(m.cleanups)-1]
		m.trace = append(m.trace, fmt.Sprintf("cleanup %d", op.ID))
		if m.run(op.Ops) {
			m.trace = append(m.trace, fmt.Sprintf("end of %d", op.ID))
		}
	}
	return m, cleanups
}

func (c *p24Case) judge(st *prop.Stats) error {
	t := &tk.T{}
	test := testkit.Begin(t, tk.RichApp{})
	const desc = "satisfy the check"

	var (
		x *satisfyRun
		k *p24Check
		e testkit.Expectation
	)

	for i := range c.Checks {
		x = &satisfyRun{helpers: map[int]bool{}}
		k = c.Checks[i]

		if e == nil || !c.Reuse {
			e = testkit.ToSatisfy(desc, func(t *testkit.SatisfyT) {
				x.t = t
				x.ops = k.Ops
				defer x.enter(satisfyPred)()
				if k.Helper {
					t.Helper()
					x.helpers[satisfyPred] = true
				}
				satisfyMain(x.mark())
			})
		}
		outer := e
		switch k.Wrap {
		case "all":
			outer = testkit.AllOf(e, testkit.ToSatisfy("pass", func(*testkit.SatisfyT) {}))
		case "none":
			outer = testkit.NoneOf(e, testkit.ToSatisfy("fail", func(t *testkit.SatisfyT) { t.Fail() }))
		case "not":
			outer = testkit.Not(e)
		}

		t.SetStep(i)
		res := sim.Capture(func() error {
			test.Expect(testkit.ExecuteCommand(tk.NewPerform()), outer)
			return nil
		})

		m, cleanups := predictSatisfy(k)
		bad := func(f string, args ...any) error {
			return fmt.Errorf("check %d: %s\nexpected operations: %v\nactual operations:   %v", i, fmt.Sprintf(f, args...), m.trace, x.trace)
		}
		st.ClassIf(cleanups >= 2, "2+ cleanups")
		st.ClassIf(m.failed && m.skipped, "failed and skipped")
		st.ClassIf(len(m.panics) > 0, "panics")
		st.ClassIf(len(m.panics) > 1, "panics twice")
		st.ClassIf(x.viaHelper, "caused via helper")
		st.NonTrivial(cleanups >= 2 && (m.stopped || len(m.panics) > 0))
		st.NonTrivial(x.viaHelper)

		if !slices.Equal(x.trace, m.trace) {
			return bad("the operations that were performed differ")
		}
		if x.stateFailed != nil {
			return bad("%s", x.stateFailed)
		}

		var calls = t.Calls(i)
		stopped := false
		if res.Panicked {
			_, stopped = res.Panic.(tk.Abort)
		}

		if len(m.panics) > 0 {
			if !res.Panicked || stopped {
				return bad("a panic does not reach the caller")
			}
			ok := false
			for _, op := range m.panics {
				err, _ := res.Panic.(error)
				var re runtime.Error
				if op.K == "panic" {
					ok = ok || err != nil && err.Error() == satisfyPanic(op).Error()
				} else {
					ok = ok || errors.As(err, &re)
				}
			}
			if !ok {
				return bad("the caller sees an unexpected panic: %v", res.Panic)
			}
			continue
		}
		if res.Panicked && !stopped {
			return bad("the check panics: %v", res.Panic)
		}

		// Check the verdict.
		pass := !m.failed || m.skipped
		inverted := k.Wrap == "none" || k.Wrap == "not"
		if want := pass != inverted; want == stopped {
			return bad("the test passed=%t, expected %t", !stopped, want)
		}

		// Check the report.
		var text string
		for _, l := range calls {
			if strings.HasPrefix(l.Text, reportHeader) {
				text = l.Text
			}
		}
		n, err := parseReport(text)
		if err != nil {
			return bad("%s\n%s", err, text)
		}
		if k.Wrap == "all" || k.Wrap == "none" {
			if len(n.Children) != 2 {
				return bad("the report has %d children\n%s", len(n.Children), text)
			}
			n = n.Children[0]
		}
		if k.Wrap == "not" {
			continue
		}

		line := desc
		if m.skipped {
			line += " (the expectation was skipped)"
		} else if m.failed {
			line += " (the expectation failed)"
		}
		if n.Line != line || n.OK != pass {
			return bad("the report says %q (passed=%t), expected %q (passed=%t)", n.Line, n.OK, line, pass)
		}
		if inverted && !pass {
			// There is nothing to explain.
			continue
		}

		if got := n.Sections["EXPLANATION"]; got != x.cause {
			return bad("the cause is reported as %q, expected %q", got, x.cause)
		}
		want := strings.Join(m.logs, "\n")
		if got := n.Sections["LOG MESSAGES"]; got != want {
			return bad("the log is reported as %q, expected %q", got, want)
		}
		st.ClassIf(len(m.logs) >= 2, "2+ log messages")
		for _, op := range k.Ops {
			st.ClassIf(op.More > 0 && op.K == "log", "log message with several arguments")
		}
	}
	return nil
}
