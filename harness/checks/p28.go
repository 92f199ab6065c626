package checks

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/dogmatiq/testkit/location"
	"pgregory.net/rapid"
	"verif/harness/prop"
	"verif/harness/sim"
)

// p28Program is a program that asks for a location.
type p28Program struct {
	K string // "define", "call", "action", "panic" or "render"

	// N is the variant of the program.
	N int `json:",omitempty"`

	// Path is the path of functions called before anything interesting
	// happens.
	Path []int `json:",omitempty"`

	// Depth is the number of calls between a deferred function and the query.
	Depth int `json:",omitempty"`

	// Noise is the number of other panics that are recovered before the query.
	Noise int `json:",omitempty"`

	// L is the location to render.
	L *location.Location `json:",omitempty"`

	// Anonymous is true if the name in L is that of a closure.
	Anonymous bool `json:",omitempty"`
}

func init() {
	prop.Register("P28", prop.Options{
		Rule: "A case is a program that asks for the location of a function, method, call, action or panic at a depth of up to 64 calls, with other panics and deferred functions in between, or a location to render. " +
			"It is non-trivial if at least 8 calls are involved.",
		Quick:    300000,
		Thorough: 1800000,
		Assumptions: []string{
			"The Go runtime attributes call frames to the right lines.",
		},
	}, p28Draw, func(cp **p28Program, st *prop.Stats) error {
		return (*cp).judge(st)
	})
}

func p28Draw(t *rapid.T) *p28Program {
	p := &p28Program{
		K: sim.Pick(t, []string{"define", "call", "action", "panic", "panic", "panic", "render"}),
	}
	path := func(steps int) {
		n := sim.Pick(t, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 64})
		only := sim.OneIn(t, 3)
		for range n {
			s := sim.Int(t, 0, steps-1)
			if only {
				s = sim.Int(t, 0, 3)
			}
			p.Path = append(p.Path, s)
		}
	}
	switch p.K {
	case "define":
		p.N = sim.Int(t, 0, len(definitions)-1)
	case "call", "action":
		p.N = sim.Int(t, 0, 13)
		path(len(locSteps))
	case "panic":
		p.N = sim.Int(t, 0, 13)
		p.Depth = sim.Pick(t, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 64})
		p.Noise = sim.Int(t, 0, 2)
		path(len(locSteps))
	case "render":
		p.L = &location.Location{}
		if rapid.Bool().Draw(t, "file") {
			p.L.File = sim.Pick(t, []string{
				"/src/dir/file.go", "file.go", "dir/file_test.go", "/a b/c%d.go", "/src/x.func1.go",
			})
			p.L.Line = sim.Pick(t, []int{1, 2, 99, 123456})
		}
		if rapid.Bool().Draw(t, "func") {
			p.Anonymous = rapid.Bool().Draw(t, "anonymous")
			if p.Anonymous {
				p.L.Func = sim.Pick(t, []string{
					"example.org/pkg.Func.func1", "main.main.func12", "pkg.glob..func1", "a/b.glob..func3.1",
					"pkg.(*T).Method.func2.1", "pkg.Func[...].func1", "pkg.init.func3", "pkg.init.0.func1.2.3", "pkg.Outer.Inner.func4",
					"pkg.Func.func1-range1", "pkg.(*T).Method.func2.1-range12", "pkg.Func-range1.func2",
				})
			} else {
				p.L.Func = sim.Pick(t, []string{
					"example.org/pkg.Func", "main.main", "pkg.(*T).Method", "pkg.T.Method", "pkg.Func[...]", "pkg.init",
					"pkg.functional", "pkg.T.func1x", "example.org/pkg.func1.v2/pkg.Func", "pkg.function2", "<function>",
				})
			}
		}
	}
	return p
}

func (p *p28Program) judge(st *prop.Stats) error {
	st.NonTrivial(len(p.Path)+p.Depth >= 8)

	switch p.K {
	case "define":
		d := definitions[p.N]
		l := d.Loc()
		if err := compareLocation(l, d.Where); err != nil {
			return fmt.Errorf("%s: %w", d.Name, err)
		}
		st.Class("definition")
		return checkRendering(l, d.Anonymous)

	case "render":
		st.Class("render")
		return checkRendering(*p.L, p.Anonymous)

	case "panic":
		x := newLocRun(p)
		if !x.catch() {
			return fmt.Errorf("no panic was recovered")
		}
		if x.want.Line == 0 {
			panic("the location of the panic is not known to the harness")
		}
		st.Class("panic")
		st.ClassIf(len(p.Path) > 8, "panic after 8+ calls")
		st.ClassIf(p.Depth > 8, "query after 8+ calls")
		return compareLocation(x.out, x.want)

	default:
		x := newLocRun(p)
		res := sim.Capture(func() error {
			x.next()
			return nil
		})
		if res.Panicked {
			return fmt.Errorf("the program panicked: %v", res.Panic)
		}
		if x.want.Line == 0 {
			panic("the location is not known to the harness")
		}
		st.Class(p.K)
		if err := compareLocation(x.out, x.want); err != nil || p.K != "call" {
			return err
		}
		return checkRendering(x.out, x.anonymous)
	}
}

func compareLocation(got location.Location, want place) error {
	if got.File != want.File || got.Line != want.Line {
		return fmt.Errorf("location is %+v (%s:%d), expected %s:%d", got, got.File, got.Line, want.File, want.Line)
	}
	if got.Func == "" {
		return fmt.Errorf("location %s has no function name", got)
	}
	return nil
}

func checkRendering(l location.Location, anonymous bool) error {
	var (
		text     = l.String()
		fl, ok   = l.FileLine()
		wantFile = fmt.Sprintf("%s:%d", filepath.Base(l.File), l.Line)
	)
	if ok != (l.File != "") || ok && fl != wantFile {
		return fmt.Errorf("the file and line of %#v is given as %q, %t", l, fl, ok)
	}

	bad := func() error { return fmt.Errorf("%#v is rendered as %q", l, text) }

	if l.File == "" {
		if l.Func == "" {
			if text != "<unknown>" {
				return bad()
			}
		} else if !strings.Contains(text, l.Func) {
			return bad()
		}
		return nil
	}
	rest, ok := strings.CutPrefix(text, wantFile)
	if !ok {
		return bad()
	}
	if l.Func == "" || anonymous {
		if rest != "" {
			return bad()
		}
	} else if rest == "" || !strings.Contains(rest, l.Func) {
		return bad()
	}
	return nil
}
