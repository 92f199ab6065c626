package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
	"verif/harness/tk"
)

// p29Report is a report made by user code.
type p29Report struct {
	OK          bool
	Criteria    string
	Outcome     string       `json:",omitempty"`
	Explanation string       `json:",omitempty"`
	Text        []p29Text    `json:",omitempty"`
	Sub         []*p29Report `json:",omitempty"`
}

// p29Text is something that is added to a section.
type p29Text struct {
	Title string

	// Item is true if the text is added as a list item.
	Item bool `json:",omitempty"`

	// None is true if the section is merely mentioned.
	None bool `json:",omitempty"`

	Format string `json:",omitempty"`
	Args   []int  `json:",omitempty"`
}

type p29Case struct {
	Report *p29Report

	// Limit is the number of bytes after which the writer fails, if positive.
	Limit int `json:",omitempty"`

	// Test is true if the report is made by an expectation.
	Test bool `json:",omitempty"`
}

var (
	p29Lines = []string{
		"text", "one two", "a | b", "✓ ticked", "✗ crossed", "• item", "EXPLANATION", "100%", "é世界", "  indented", "--- TEST REPORT ---", "(parens)", "| bar",
	}
	p29Titles = []string{"Title", "TITLE", "title", "Suggestions", "explanation", "été", "a | b", "✓", "1"}
)

func init() {
	prop.Register("P29", prop.Options{
		Rule: "A case is a report with generated verdicts, texts, sections and up to 3 levels of sub-reports, which is either written to a writer that may fail at a generated position, or made by a user-defined expectation within a test. " +
			"It is non-trivial if there are sub-reports, and a section to which text is added more than once.",
		Quick:    300000,
		Thorough: 1800000,
	}, func(t *rapid.T) *p29Case {
		c := &p29Case{
			Report: p29Draw(t, sim.Int(t, 0, 3)),
			Test:   sim.OneIn(t, 4),
		}
		if !c.Test && sim.OneIn(t, 3) {
			c.Limit = sim.Int(t, 1, 400)
		}
		return c
	}, func(cp **p29Case, st *prop.Stats) error {
		c := *cp
		rep := c.Report.build()

		var (
			text string
			err  error
		)
		if c.Test {
			st.Class("within a test")
			text, err = p29Test(c.Report, rep)
		} else {
			text, err = p29Write(rep)
		}
		if err != nil {
			return err
		}

		lines := strings.Split(text, "\n")
		if lines[len(lines)-1] != "" {
			return fmt.Errorf("the last line is incomplete: %q", text)
		}
		rest, err := c.Report.match(lines[:len(lines)-1], "", st)
		if err != nil {
			return fmt.Errorf("%w, in:\n%s", err, text)
		}
		if len(rest) != 0 {
			return fmt.Errorf("there is unexpected text %q, in:\n%s", rest[0], text)
		}

		if c.Limit > 0 {
			st.ClassIf(c.Limit < len(text), "the writer fails")
			w := &p29Writer{limit: c.Limit}
			n, err := rep.WriteTo(w)
			if failed := c.Limit < len(text); failed != (err != nil) {
				return fmt.Errorf("writing %d bytes to a writer that fails after %d bytes returns the error %v", len(text), c.Limit, err)
			}
			if err != nil && !errors.Is(err, errP29) {
				return fmt.Errorf("the error %q of the writer is returned as %q", errP29, err)
			}
			if n != int64(w.buf.Len()) {
				return fmt.Errorf("%d bytes are reported to be written to a writer that fails after %d bytes, there are %d", n, c.Limit, w.buf.Len())
			}
			if !strings.HasPrefix(text, w.buf.String()) {
				return fmt.Errorf("a writer that fails after %d bytes is given %q, which is not the beginning of %q", c.Limit, w.buf.String(), text)
			}
		}

		repeated := false
		c.Report.walk(func(r *p29Report) {
			seen := map[string]int{}
			for _, x := range r.Text {
				if seen[x.Title]++; seen[x.Title] == 2 {
					repeated = true
				}
			}
		})
		st.NonTrivial(repeated && len(c.Report.Sub) > 0)
		return nil
	})
}

func p29Draw(t *rapid.T, depth int) *p29Report {
	lines := func(max int) string {
		var res []string
		for range sim.Int(t, 1, max) {
			if len(res) > 0 && sim.OneIn(t, 5) {
				for range sim.Int(t, 1, 3) {
					res = append(res, "")
				}
			}
			res = append(res, sim.Pick(t, p29Lines))
		}
		return strings.Join(res, "\n")
	}

	r := &p29Report{
		OK:       rapid.Bool().Draw(t, "ok"),
		Criteria: sim.Pick(t, p29Lines),
	}
	if rapid.Bool().Draw(t, "outcome") {
		r.Outcome = sim.Pick(t, p29Lines)
	}
	if sim.OneIn(t, 3) {
		r.Explanation = strings.TrimSpace(lines(3))
	}
	if rapid.Bool().Draw(t, "sections") {
		titles := []string{sim.Pick(t, p29Titles), sim.Pick(t, p29Titles), sim.Pick(t, p29Titles)}
		for range sim.Count(t, 0, 5, 30) {
			x := p29Text{Title: sim.Pick(t, titles)}
			switch {
			case sim.OneIn(t, 8):
				x.None = true
			case rapid.Bool().Draw(t, "item"):
				x.Item = true
				fallthrough
			default:
				x.Format = strings.ReplaceAll(lines(2), "%", "%%")
				for i := range sim.Int(t, 0, 2) {
					x.Format += " %0" + fmt.Sprint(i+2) + "d"
					x.Args = append(x.Args, sim.Int(t, 0, 999))
				}
			}
			r.Text = append(r.Text, x)
		}
	}
	if depth > 0 {
		for range sim.Count(t, 0, 3, 12) {
			r.Sub = append(r.Sub, p29Draw(t, depth-1))
		}
	}
	return r
}

func (r *p29Report) walk(fn func(*p29Report)) {
	fn(r)
	for _, s := range r.Sub {
		s.walk(fn)
	}
}

// build returns the report.
func (r *p29Report) build() *testkit.Report {
	res := &testkit.Report{
		Ok:          r.OK,
		Criteria:    r.Criteria,
		Outcome:     r.Outcome,
		Explanation: r.Explanation,
	}
	for _, x := range r.Text {
		s := res.Section(x.Title)
		var args []any
		for _, a := range x.Args {
			args = append(args, a)
		}
		switch {
		case x.None:
		case x.Item:
			s.AppendListItem(x.Format, args...)
		default:
			s.Append(x.Format, args...)
		}
	}
	for _, s := range r.Sub {
		res.Append(s.build())
	}
	return res
}

// sections returns the titles and content of the sections to be shown.
func (r *p29Report) sections() (titles []string, content [][]string) {
	if r.Explanation != "" {
		titles = append(titles, "EXPLANATION")
		content = append(content, strings.Split(r.Explanation, "\n"))
	}

	var order []string
	text := map[string]string{}
	for _, x := range r.Text {
		if _, ok := text[x.Title]; !ok {
			order = append(order, x.Title)
			text[x.Title] = ""
		}
		if x.None {
			continue
		}
		if x.Item {
			text[x.Title] += "• "
		}
		// Formatting is none of the report's business.
		var args []any
		for _, a := range x.Args {
			args = append(args, a)
		}
		text[x.Title] += fmt.Sprintf(x.Format, args...) + "\n"
	}
	for _, t := range order {
		if text[t] != "" {
			titles = append(titles, strings.ToUpper(t))
			content = append(content, strings.Split(strings.TrimSpace(text[t]), "\n"))
		}
	}
	return titles, content
}

// match checks that lines begin with the text of the report, each line being
// indented, and returns the remaining lines.
func (r *p29Report) match(lines []string, indent string, st *prop.Stats) ([]string, error) {
	// next returns the next line that is not blank.
	next := func() string {
		for len(lines) > 0 && strings.Trim(lines[0], " |") == "" {
			lines = lines[1:]
		}
		if len(lines) == 0 {
			return ""
		}
		s := lines[0]
		lines = lines[1:]
		return s
	}
	expect := func(want string) error {
		if got := next(); got != want {
			return fmt.Errorf("there is %q instead of %q", got, want)
		}
		return nil
	}

	line := "✗ " + r.Criteria
	if r.OK {
		line = "✓ " + r.Criteria
	}
	if r.Outcome != "" {
		line += " (" + r.Outcome + ")"
	}
	if err := expect(indent + line); err != nil {
		return nil, err
	}

	titles, content := r.sections()
	st.ClassIf(len(titles) > 1, "several sections")
	for i, t := range titles {
		if err := expect(indent + "  | " + t); err != nil {
			return nil, err
		}
		for j, l := range content[i] {
			if l != "" {
				if err := expect(indent + "  |     " + l); err != nil {
					return nil, err
				}
				continue
			}
			if len(lines) == 0 || strings.TrimSpace(strings.TrimPrefix(lines[0], indent+"  |")) != "" {
				return nil, fmt.Errorf("line %d of section %q is not blank", j, t)
			}
			lines = lines[1:]
		}
	}

	for _, s := range r.Sub {
		st.Class("sub-report")
		rest, err := s.match(lines, indent+"    ", st)
		if err != nil {
			return nil, err
		}
		lines = rest
	}
	return lines, nil
}

// p29Write returns the text that is written for rep.
func p29Write(rep *testkit.Report) (string, error) {
	var first, second bytes.Buffer
	n, err := rep.WriteTo(&first)
	if err != nil {
		return "", fmt.Errorf("writing the report fails: %w", err)
	}
	if n != int64(first.Len()) {
		return "", fmt.Errorf("%d bytes are reported to be written, there are %d", n, first.Len())
	}
	if _, err := rep.WriteTo(&second); err != nil || first.String() != second.String() {
		return "", fmt.Errorf("writing the report again produces %q, it was %q", second.String(), first.String())
	}
	return first.String(), nil
}

var errP29 = errors.New("<writer failed>")

// p29Writer is a writer that fails.
type p29Writer struct {
	buf   bytes.Buffer
	limit int
}

func (w *p29Writer) Write(data []byte) (int, error) {
	if n := w.limit - w.buf.Len(); len(data) > n {
		w.buf.Write(data[:n])
		return n, errP29
	}
	return w.buf.Write(data)
}

// p29Test returns the text that is logged if rep is the report of an
// expectation.
func p29Test(r *p29Report, rep *testkit.Report) (string, error) {
	w := sim.New(&sim.App{})
	t := &tk.T{World: w}
	test := testkit.BeginContext(context.Background(), t, w.Application())
	t.SetStep(0)
	x := &p29Expectation{rep: rep}
	res := sim.Capture(func() error {
		test.Expect(testkit.Call(func() {}), x)
		return nil
	})
	if _, ok := res.Panic.(tk.Abort); res.Panicked && !ok {
		return "", fmt.Errorf("the test panicked: %v", res.Panic)
	}
	if res.Panicked == r.OK {
		return "", fmt.Errorf("the expectation passes=%t, the test is stopped=%t", r.OK, res.Panicked)
	}
	var texts []string
	for _, c := range t.Calls(0) {
		if c.Method == "Log" && strings.HasPrefix(c.Text, reportHeader) {
			texts = append(texts, c.Text)
		}
	}
	if len(texts) != 1 {
		return "", fmt.Errorf("there are %d reports", len(texts))
	}
	if !reflect.DeepEqual(rep, r.build()) {
		return "", fmt.Errorf("the report is changed by writing it")
	}
	return strings.TrimLeft(strings.TrimPrefix(texts[0], reportHeader), "\n"), nil
}

type p29Expectation struct {
	rep *testkit.Report
}

func (x *p29Expectation) Caption() string { return "to be reported" }
func (x *p29Expectation) Predicate(testkit.PredicateScope) (testkit.Predicate, error) {
	return x, nil
}
func (x *p29Expectation) Notify(fact.Fact) {}
func (x *p29Expectation) Ok() bool         { return x.rep.Ok }
func (x *p29Expectation) Done()            {}
func (x *p29Expectation) Report(testkit.ReportGenerationContext) *testkit.Report {
	return x.rep
}
