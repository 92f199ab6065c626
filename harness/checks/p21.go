package checks

import (
	"fmt"
	"reflect"
	"slices"
	"strings"

	"github.com/dogmatiq/dapper"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/enginekit/message"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

type p21Case struct {
	Tree *tk.Case `json:",omitempty"`
	Diff *p21Diff `json:",omitempty"`
}

// p21Diff is a case that is about the content of messages.
type p21Diff struct {
	Expected *tk.RichMsg
	Actual   []*tk.RichMsg
	Notes    []p21Note `json:",omitempty"`
}

// p21Note is an annotation.
type p21Note struct {
	V    *tk.AnySpec
	Text string
}

func init() {
	prop.Register("P21", prop.Options{
		Rule: "A case is either a test of an application with trees of expectations over all kinds of leaves, or a pair of structured messages, with annotations, that are shown as a diff. " +
			"It is non-trivial if some report explains the failure of at least one message expectation within a tree of at least 3 expectations, or if a diff is shown.",
		Quick:    60000,
		Thorough: 800000,
	}, func(t *rapid.T) *p21Case {
		if sim.OneIn(t, 4) {
			return &p21Case{Diff: p21DrawDiff(t)}
		}
		return &p21Case{Tree: p21DrawTree(t)}
	}, func(cp **p21Case, st *prop.Stats) error {
		c := *cp
		if c.Diff != nil {
			return c.Diff.judge(st)
		}
		return p21Judge(c.Tree, st)
	})
}

func p21DrawTree(t *rapid.T) *tk.Case {
	g := sim.Gen{
		Max:          map[string]int{sim.Aggregate: 2, sim.Process: 2, sim.Integration: 2, sim.Projection: 1},
		Large:        80,
		MaxMessages:  10,
		NumInstances: 2,
		Times:        []int64{0, 1000, 2000},
		Schedule:     1,
		Ops:          []string{sim.End, sim.RouteIgnore},
	}.Defaults()
	c := &tk.Case{App: g.App(t)}
	c.Opts = g.Opts(t, c.App, 3)
	for range sim.Int(t, 1, 3) {
		a := tk.Action(t, g, c.App, []string{tk.Dispatch, tk.Dispatch, tk.Dispatch, tk.By, tk.Call, tk.Call}, 0)
		c.Steps = append(c.Steps, &tk.Step{Acts: []*tk.Act{a}})
	}
	c.AssignKeys()
	alike := rapid.Bool().Draw(t, "alike")
	for _, s := range c.Steps {
		a := s.Acts[0]
		if alike {
			tk.Alike(t, a.M)
			for _, x := range a.Calls {
				tk.Alike(t, x.M)
			}
		}
		eg := tk.Gen{
			App:   c.App,
			Act:   a,
			Depth: sim.Pick(t, []int{0, 1, 2, 3}),
			Width: 3,
			Kinds: []string{tk.Message, tk.Message, tk.Type, tk.OfType, tk.Match, tk.Match, tk.Only, tk.Only, tk.Fixed, tk.Satisfy},
		}
		s.E = eg.Exp(t)
	}
	return c
}

func p21Judge(c *tk.Case, st *prop.Stats) error {
	r := tk.Begin(c)

	for i, s := range c.Steps {
		before := r.World.Len()
		res := r.Step(i, s)
		trace := r.World.Trace()[before:]
		if res.Panicked {
			return fmt.Errorf("step %d panicked: %v", i, res.Panic)
		}
		if f := res.Of("Fatal"); len(f) > 0 {
			return fmt.Errorf("step %d failed fatally: %s", i, f[0].Text)
		}
		reports := p19Reports(res)
		if len(reports) != 1 {
			return fmt.Errorf("step %d has %d reports", i, len(reports))
		}
		n, err := parseReport(reports[0].Text)
		if err != nil {
			return fmt.Errorf("step %d: %w\n%s", i, err, reports[0].Text)
		}

		if err := p21Heading(s, res); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}

		x := &explainer{
			app:   c.App,
			act:   s.Acts[0],
			obs:   tk.Observed{Messages: r.Produced(i)},
			trace: trace,
			stats: st,
		}
		if len(r.Acted[[2]int{i, 0}]) > 0 {
			x.dispatched = s.Acts[0].K != tk.By
		}
		x.opts = r.Opts
		x.treeOK = s.E.Holds(x.obs)

		if err := x.check(n, s.E, false); err != nil {
			return fmt.Errorf("step %d: %w, given %s\n%s", i, err, describeMessages(x.obs.Messages), reports[0].Text)
		}

		total := 0
		s.E.Walk(func(*tk.Exp) { total++ })
		st.NonTrivial(x.explained > 0 && total >= 3)
	}
	return nil
}

// p21Heading checks that the action and expectation of a step are announced.
func p21Heading(s *tk.Step, res tk.StepResult) error {
	action := "calling user-defined function"
	switch a := s.Acts[0]; a.K {
	case tk.By:
		action = fmt.Sprintf("advancing time by %s", sim.Duration(a.D))
	case tk.Dispatch:
		action = fmt.Sprintf("executing %s command", msgTypeName(a.M.T))
		if a.M.T[0] == 'E' {
			action = fmt.Sprintf("recording %s event", msgTypeName(a.M.T))
		}
	}
	cap, complete := caption(s.E)
	want := fmt.Sprintf("--- expect %s %s", action, cap)
	if complete {
		want += " ---"
	}

	n := 0
	for _, c := range res.Of("Log") {
		if strings.HasPrefix(c.Text, "--- expect ") {
			n++
			if complete && c.Text != want || !strings.HasPrefix(c.Text, want) {
				return fmt.Errorf("the heading is %q, expected %q", c.Text, want)
			}
		}
	}
	if n != 1 {
		return fmt.Errorf("there are %d headings", n)
	}
	return nil
}

// caption returns the text that describes e in a heading, or the beginning of
// it.
func caption(e *tk.Exp) (text string, complete bool) {
	n := len(e.C)
	switch e.K {
	case tk.All, tk.Any:
		if n == 1 {
			return caption(e.C[0])
		}
		if e.K == tk.All {
			return fmt.Sprintf("to meet %d expectations", n), true
		}
		return fmt.Sprintf("to meet at least one of %d expectations", n), true
	case tk.None:
		if n > 1 {
			return fmt.Sprintf("not to meet any of %d expectations", n), true
		}
		fallthrough
	case tk.Not:
		s, ok := caption(e.C[0])
		return "not " + s, ok
	case tk.Type, tk.OfType:
		w := wordsFor(e.Kind())
		return fmt.Sprintf("to %s %s %s of type %s", w.produce, w.a, w.message, msgTypeName(e.T)), true
	}
	s, ok := criteria(e)
	return "to " + s, ok
}

// explainer checks reports.
type explainer struct {
	app        *sim.App
	act        *tk.Act
	opts       []sim.Opt
	obs        tk.Observed
	trace      []*sim.Entry
	dispatched bool
	treeOK     bool
	explained  int
	stats      *prop.Stats
}

// words for each kind of message
type words struct {
	message, messages, produce, produced, a string
}

func wordsFor(k byte) words {
	if k == 'C' {
		return words{"command", "commands", "execute", "executed", "a"}
	}
	return words{"event", "events", "record", "recorded", "an"}
}

func msgTypeName(t string) string {
	return message.TypeOf((&sim.Msg{T: t}).Message()).String()
}

// criteria returns the text that describes e, or the beginning of it.
func criteria(e *tk.Exp) (text string, complete bool) {
	switch e.K {
	case tk.All, tk.Any:
		if len(e.C) == 1 {
			return criteria(e.C[0])
		}
		return e.K + " of", true
	case tk.None:
		return "none of", true
	case tk.Not:
		s, ok := criteria(e.C[0])
		return "do not " + s, ok
	case tk.Repeat, tk.Satisfy, tk.Fixed:
		return e.S, true
	}

	// The predicates are defined in the file that defines the type, if it is
	// local to a function.
	file := "exp.go"
	if e.T == "E3" {
		file = "message.go"
	}

	w := wordsFor(e.Kind())
	switch e.K {
	case tk.Message:
		return fmt.Sprintf("%s a specific '%s' %s", w.produce, msgTypeName(e.M.T), w.message), true
	case tk.Type, tk.OfType:
		return fmt.Sprintf("%s any '%s' %s", w.produce, msgTypeName(e.T), w.message), true
	case tk.Match:
		return fmt.Sprintf("%s %s %s that matches the predicate near %s:", w.produce, w.a, w.message, file), false
	case tk.Only:
		return fmt.Sprintf("only %s %s that match the predicate near %s:", w.produce, w.messages, file), false
	}
	panic("unknown expectation: " + e.K)
}

// outcome returns the text that describes the outcome of e.
func (x *explainer) outcome(e *tk.Exp) string {
	passed := 0
	n := len(e.C)
	for _, c := range e.C {
		if c.Holds(x.obs) {
			passed++
		}
	}
	switch e.K {
	case tk.All:
		if passed < n {
			return fmt.Sprintf("%d of the expectations failed", n-passed)
		}
	case tk.Any:
		if passed == 0 {
			return fmt.Sprintf("all %d of the expectations failed", n)
		}
	case tk.None:
		if passed > 0 && n == 1 {
			return "the expectation passed unexpectedly"
		}
		if passed > 0 {
			return fmt.Sprintf("%d of the expectations passed unexpectedly", passed)
		}
	case tk.Repeat:
		failed, shown := 0, 0
		for i := range e.N {
			if !e.Child(i).Holds(x.obs) {
				if failed == 0 {
					shown = i
				}
				failed++
			}
		}
		if failed > 0 {
			return fmt.Sprintf("%d of %d iteration(s) failed, iteration #%d shown", failed, e.N, shown)
		}
	case tk.Satisfy:
		if e.V == tk.Fail {
			return "the expectation failed"
		}
	}
	return ""
}

func (x *explainer) check(n *node, e *tk.Exp, inverted bool) error {
	if (e.K == tk.All || e.K == tk.Any) && len(e.C) == 1 {
		return x.check(n, e.C[0], inverted)
	}

	text, complete := criteria(e)
	holds := e.Holds(x.obs)
	if n.OK != holds {
		return fmt.Errorf("%q is marked as passed=%t, expected %t", n.Line, n.OK, holds)
	}
	want := text
	if o := x.outcome(e); o != "" {
		want += " (" + o + ")"
	}
	if complete && n.Line != want {
		return fmt.Errorf("%q is reported, expected %q", n.Line, want)
	}
	if !strings.HasPrefix(n.Line, text) {
		return fmt.Errorf("%q is reported, expected %q", n.Line, text)
	}

	var children []*tk.Exp
	switch e.K {
	case tk.All, tk.Any:
		children = e.C
	case tk.None:
		children = e.C
		inverted = !inverted
	case tk.Repeat:
		for i := range e.N {
			if c := e.Child(i); !c.Holds(x.obs) {
				children = append(children, c)
				break
			}
		}
	}
	if len(n.Children) != len(children) {
		return fmt.Errorf("%q has %d children, expected %d", n.Line, len(n.Children), len(children))
	}
	for i, c := range children {
		if err := x.check(n.Children[i], c, inverted); err != nil {
			return err
		}
	}

	if !e.IsMessage() {
		if e.IsComposite() && len(n.Titles) > 0 {
			return fmt.Errorf("%q has sections %v", n.Line, n.Titles)
		}
		return nil
	}

	if holds || x.treeOK || inverted {
		if len(n.Titles) > 0 {
			return fmt.Errorf("%q has sections %v, but there is nothing to explain", n.Line, n.Titles)
		}
		return nil
	}

	x.explained++
	if err := x.explain(n, e); err != nil {
		return fmt.Errorf("%q: %w", n.Line, err)
	}
	return nil
}

// relevant returns the types of handlers that produce messages of a kind.
func relevant(k byte) []string {
	if k == 'C' {
		return []string{sim.Process}
	}
	return []string{sim.Aggregate, sim.Integration}
}

func (x *explainer) typeEnabled(typ string) bool {
	en := true
	for _, o := range x.opts {
		if o.Type == typ {
			en = o.On
		}
	}
	return en
}

// engaged returns the names of the relevant handlers that handled something.
func (x *explainer) engaged(k byte) map[string]string {
	res := map[string]string{}
	for _, e := range x.trace {
		if f, ok := e.Fact.(fact.HandlingBegun); ok {
			h := x.app.Handler(f.Handler.Identity().Name)
			if slices.Contains(relevant(k), h.Type) {
				res[h.Name] = h.Type
			}
		}
	}
	return res
}

func (x *explainer) explain(n *node, e *tk.Exp) error {
	var (
		k       = e.Kind()
		w       = wordsFor(k)
		got     = n.Sections["EXPLANATION"]
		call    = x.act.K == tk.Call
		ofKind  []*sim.Msg
		similar []*sim.Msg
		enabled bool
	)
	for _, m := range x.obs.Messages {
		if m.T[0] == k {
			ofKind = append(ofKind, m)
		}
		if e.K == tk.Message && m.T == e.M.T {
			similar = append(similar, m)
		}
	}
	for _, t := range relevant(k) {
		enabled = enabled || x.typeEnabled(t)
	}

	if err := x.suggestions(n, e); err != nil {
		return err
	}
	if err := x.failedMatches(n, e, ofKind); err != nil {
		return err
	}

	if len(similar) > 0 {
		x.stats.Class("explained: similar message")
		return x.similar(n, e, similar)
	}
	if _, ok := n.Sections["MESSAGE DIFF"]; ok {
		return fmt.Errorf("a diff is shown, but no similar message was produced")
	}

	var want, class string
	switch {
	case e.K == tk.Only:
		class = "some do not match"
		matched, ignored := 0, 0
		for _, m := range ofKind {
			if !e.Interface() && m.T != e.T {
				continue
			}
			switch e.Outcome(m) {
			case tk.PredNil:
				matched++
			case tk.PredIgnore:
				ignored++
			}
		}
		if matched == 0 {
			want = fmt.Sprintf("none of the %d relevant %s matched the predicate", len(ofKind)-ignored, w.messages)
			if len(ofKind)-ignored == 1 {
				// The noun may be singular or plural.
				if singular := strings.Replace(want, w.messages, w.message, 1); got == singular {
					want = singular
				}
			}
		} else {
			want = fmt.Sprintf("only %d of %d relevant %s matched the predicate", matched, len(ofKind)-ignored, w.messages)
		}
	case x.dispatched && !call && !enabled:
		class = "disabled"
		want = "no relevant handler types were enabled"
	case x.dispatched && !call && len(x.engaged(k)) == 0:
		class = "not engaged"
		want = fmt.Sprintf("no relevant handlers (%s) were engaged", strings.Join(relevant(k), " or "))
	case len(x.obs.Messages) == 0:
		class = "no messages"
		want = "no messages were produced at all"
	case len(ofKind) == 0:
		class = "no messages of kind"
		want = fmt.Sprintf("no %s were %s at all", w.messages, w.produced)
	case call:
		class = "no matching message (call)"
		want = fmt.Sprintf("nothing %s a matching %s", w.produced, w.message)
	default:
		class = "no matching message"
		want = fmt.Sprintf("none of the engaged handlers %s a matching %s", w.produced, w.message)
	}
	x.stats.Class("explained: " + class)
	if got != want {
		return fmt.Errorf("explanation is %q, expected %q", got, want)
	}
	return nil
}

// suggestions checks that handlers that are mentioned deserve it.
func (x *explainer) suggestions(n *node, e *tk.Exp) error {
	engaged := x.engaged(e.Kind())
	for _, s := range n.items("SUGGESTIONS") {
		if rest, ok := strings.CutPrefix(s, "verify the logic within the '"); ok {
			ok = false
			for name, typ := range engaged {
				ok = ok || strings.HasPrefix(rest, fmt.Sprintf("%s' %s message handler", name, typ))
			}
			if !ok {
				return fmt.Errorf("the suggestion to %q is about a handler that was not engaged", s)
			}
		}
		if rest, ok := strings.CutPrefix(s, "enable "); ok {
			typ, _, _ := strings.Cut(rest, " ")
			if !slices.Contains(relevant(e.Kind()), typ) || x.typeEnabled(typ) {
				return fmt.Errorf("the suggestion to %q is about handlers that are enabled or irrelevant", s)
			}
		}
	}
	return nil
}

// failedMatches checks the list of errors returned by a predicate.
func (x *explainer) failedMatches(n *node, e *tk.Exp, ofKind []*sim.Msg) error {
	type failure struct {
		t, err string
	}
	var (
		order []failure
		count = map[failure]int{}
	)
	if e.K == tk.Match || e.K == tk.Only {
		for _, m := range ofKind {
			f := failure{t: m.T}
			if !e.Interface() && m.T != e.T {
				if e.K == tk.Match {
					continue
				}
				f.err = "predicate function expected " + msgTypeName(e.T)
			} else if f.err = e.Outcome(m); f.err == tk.PredNil || f.err == tk.PredIgnore {
				continue
			}
			if count[f] == 0 {
				order = append(order, f)
			}
			count[f]++
		}
	}

	var want []string
	for _, f := range order {
		s := msgTypeName(f.t) + ": " + f.err
		if count[f] > 1 {
			s += fmt.Sprintf(" (repeated %d times)", count[f])
		}
		want = append(want, s)
	}
	got := n.items("FAILED MATCHES")
	slices.Sort(got)
	slices.Sort(want)
	if !slices.Equal(got, want) {
		return fmt.Errorf("failed matches are %q, expected %q", got, want)
	}
	if len(want) > 0 {
		x.stats.Class("explained: predicate failures")
	}
	return nil
}

// similar checks the explanation given if there is a similar message.
func (x *explainer) similar(n *node, e *tk.Exp, similar []*sim.Msg) error {
	var (
		w    = wordsFor(e.Kind())
		got  = n.Sections["EXPLANATION"]
		diff = n.Sections["MESSAGE DIFF"]
	)

	for _, m := range similar {
		origin := ""
		for _, t := range x.trace {
			if t.Kind == sim.Done && t.Do.M == m {
				origin = t.H
			}
		}
		want := fmt.Sprintf("%s similar %s was %s via a dogma.CommandExecutor", "a", w.message, w.produced)
		if origin != "" {
			want = fmt.Sprintf("a similar %s was %s by the '%s' %s message handler", w.message, w.produced, origin, x.app.Handler(origin).Type)
		}
		if got == want && isDiff(diff, render(e.M.Message(), nil), render(m.Message(), nil)) {
			return nil
		}
	}
	return fmt.Errorf("neither the explanation %q nor the diff correspond to a similar message that was produced", got)
}

// render returns the representation of m used in reports.
func render(m dogma.Message, notes []testkit.Annotation) string {
	options := []dapper.Option{
		dapper.WithPackagePaths(false),
		dapper.WithUnexportedStructFields(false),
	}
	for _, n := range notes {
		options = append(options, dapper.WithAnnotator(func(v dapper.Value) string {
			if v.Value.Type() != reflect.TypeOf(n.Value) {
				return ""
			}
			x := v.Value.Interface()
			if a, ok := x.(proto.Message); ok {
				if b, ok := n.Value.(proto.Message); ok {
					if proto.Equal(a, b) {
						return n.Text
					}
					return ""
				}
			}
			if reflect.DeepEqual(x, n.Value) {
				return n.Text
			}
			return ""
		}))
	}
	return dapper.NewPrinter(options...).Format(m)
}

func p21DrawDiff(t *rapid.T) *p21Diff {
	d := &p21Diff{Expected: tk.DrawRich(t)}
	for range sim.Int(t, 1, 2) {
		m := d.Expected
		for range sim.Int(t, 1, 3) {
			m = m.Vary(t)
		}
		d.Actual = append(d.Actual, m)
	}
	for i := range sim.Int(t, 0, 4) {
		n := p21Note{Text: fmt.Sprintf("note %d", i)}
		if sim.OneIn(t, 8) {
			n.Text = "{+note+}"
		}
		n.V = &tk.AnySpec{
			K: sim.Pick(t, []string{"int", "int64", "string", "string", "label", "slice", "struct", "pointer"}),
			N: sim.Int(t, -1, 2),
			S: sim.Pick(t, []string{"", "a", "b", "ab", "foo bar"}),
			C: &tk.Spec{},
		}

		// Often annotate a part of the message.
		if c := d.Expected.C; c != nil {
			var parts []*tk.Spec
			c.Walk(func(s *tk.Spec) { parts = append(parts, s) })
			p := sim.Pick(t, parts)
			n.V.C = p
			if p.S != "" {
				n.V.S = p.S
			}
			n.V.N = p.N
		}
		d.Notes = append(d.Notes, n)
	}
	return d
}

func (d *p21Diff) judge(st *prop.Stats) error {
	var (
		t        = &tk.T{}
		expected = d.Expected.Build()
		actual   []dogma.Event
		notes    []testkit.Annotation
		matches  bool
		similar  []dogma.Event
	)
	for _, s := range d.Actual {
		m := s.Build()
		actual = append(actual, m)
		matches = matches || s.Equal(d.Expected)
		if reflect.TypeOf(m) == reflect.TypeOf(expected) {
			similar = append(similar, m)
		}
	}

	test := testkit.Begin(t, tk.RichApp{}).EnableHandlers("rich-handler")
	for _, n := range d.Notes {
		v := (&tk.Spec{A: n.V}).Build().A
		notes = append(notes, testkit.Annotation{Value: v, Text: n.Text})
		test.Annotate(v, n.Text)
	}
	res := sim.Capture(func() error {
		test.Expect(
			testkit.ExecuteCommand(tk.NewPerform(actual...)),
			testkit.ToRecordEvent(expected),
		)
		return nil
	})
	if res.Panicked {
		if _, ok := res.Panic.(tk.Abort); !ok {
			return fmt.Errorf("the test panicked: %v", res.Panic)
		}
	}

	calls := t.Calls(0)
	var text string
	for _, c := range calls {
		if strings.HasPrefix(c.Text, reportHeader) {
			text = c.Text
		}
	}
	n, err := parseReport(text)
	if err != nil {
		return fmt.Errorf("%w\n%s", err, text)
	}
	if n.OK != matches {
		return fmt.Errorf("the expectation is marked as passed=%t, expected %t\n%s", n.OK, matches, text)
	}
	if matches || len(similar) == 0 {
		if _, ok := n.Sections["MESSAGE DIFF"]; ok {
			return fmt.Errorf("there is a diff, but the expectation passed or no similar message was produced\n%s", text)
		}
		return nil
	}

	want := "a similar event was recorded by the 'rich-handler' integration message handler"
	if got := n.Sections["EXPLANATION"]; got != want {
		return fmt.Errorf("explanation is %q, expected %q\n%s", got, want, text)
	}

	a := render(expected, notes)
	ok := false
	annotated := strings.Contains(a, "<<")
	for _, m := range similar {
		b := render(m, notes)
		annotated = annotated || strings.Contains(b, "<<")
		ok = ok || isDiff(n.Sections["MESSAGE DIFF"], a, b)
	}
	if !ok {
		return fmt.Errorf("the diff does not reproduce the expected message\n%s\nor any similar message that was recorded\n%s", a, text)
	}
	st.Class("diff of " + d.Expected.K)
	st.ClassIf(annotated, "diff with annotations")
	st.NonTrivial(true)
	return nil
}
