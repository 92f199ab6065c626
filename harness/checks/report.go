package checks

import (
	"fmt"
	"strings"
)

// node is an expectation within a parsed report.
type node struct {
	OK       bool
	Line     string
	Sections map[string]string
	Titles   []string
	Children []*node
}

// parseReport parses the text of a report.
func parseReport(text string) (*node, error) {
	rest, ok := strings.CutPrefix(text, reportHeader)
	if !ok {
		return nil, fmt.Errorf("report does not begin with %q", reportHeader)
	}
	lines := strings.Split(strings.TrimSpace(rest), "\n")
	n, lines, err := parseNode(lines, "")
	if err != nil {
		return nil, err
	}
	if len(lines) != 0 {
		return nil, fmt.Errorf("unexpected line in report: %q", lines[0])
	}
	return n, nil
}

func parseNode(lines []string, indent string) (*node, []string, error) {
	n := &node{Sections: map[string]string{}}
	line := lines[0]
	lines = lines[1:]

	if s, ok := strings.CutPrefix(line, indent+"✓ "); ok {
		n.OK, n.Line = true, s
	} else if s, ok := strings.CutPrefix(line, indent+"✗ "); ok {
		n.Line = s
	} else {
		return nil, nil, fmt.Errorf("unexpected line in report: %q", line)
	}

	const bar = "  | "
	title := ""

	for len(lines) > 0 {
		line := lines[0]

		if strings.TrimSpace(line) == "" {
			lines = lines[1:]
			continue
		}

		s, ok := strings.CutPrefix(line, indent+bar)
		if !ok && strings.TrimRight(line, " ") == indent+strings.TrimRight(bar, " ") {
			s, ok = "", true
		}
		if ok {
			lines = lines[1:]
			if c, ok := strings.CutPrefix(s, "    "); ok && title != "" {
				n.Sections[title] += c + "\n"
			} else if s == "" {
				if title != "" {
					n.Sections[title] += "\n"
				}
			} else {
				title = s
				if _, ok := n.Sections[title]; ok {
					return nil, nil, fmt.Errorf("section %q appears twice", title)
				}
				n.Sections[title] = ""
				n.Titles = append(n.Titles, title)
			}
			continue
		}

		if strings.HasPrefix(line, indent+"    ✓ ") || strings.HasPrefix(line, indent+"    ✗ ") {
			c, rest, err := parseNode(lines, indent+"    ")
			if err != nil {
				return nil, nil, err
			}
			n.Children = append(n.Children, c)
			lines = rest
			continue
		}

		break
	}

	for k, v := range n.Sections {
		n.Sections[k] = strings.TrimRight(v, "\n")
	}

	return n, lines, nil
}

// items returns the list items in a section.
func (n *node) items(title string) []string {
	if n.Sections[title] == "" {
		return nil
	}
	var res []string
	for _, l := range strings.Split(n.Sections[title], "\n") {
		if s, ok := strings.CutPrefix(l, "• "); ok {
			res = append(res, s)
		} else {
			res = append(res, l)
		}
	}
	return res
}

// isDiff returns true if d is a diff that produces a when insertions are
// dropped and b when deletions are dropped.
func isDiff(d, a, b string) bool {
	type state struct {
		i, j, k int
		mode    byte
	}
	var (
		stack = []state{{0, 0, 0, '='}}
		seen  = map[state]bool{}
	)
	push := func(s state) {
		if !seen[s] {
			seen[s] = true
			stack = append(stack, s)
		}
	}
	for len(stack) > 0 {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]

		if s.i == len(d) {
			if s.mode == '=' && s.j == len(a) && s.k == len(b) {
				return true
			}
			continue
		}

		inA := s.j < len(a) && a[s.j] == d[s.i]
		inB := s.k < len(b) && b[s.k] == d[s.i]

		switch s.mode {
		case '=':
			if inA && inB {
				push(state{s.i + 1, s.j + 1, s.k + 1, '='})
			}
			if strings.HasPrefix(d[s.i:], "{+") {
				push(state{s.i + 2, s.j, s.k, '+'})
			}
			if strings.HasPrefix(d[s.i:], "[-") {
				push(state{s.i + 2, s.j, s.k, '-'})
			}
		case '+':
			if inB {
				push(state{s.i + 1, s.j, s.k + 1, '+'})
			}
			if strings.HasPrefix(d[s.i:], "+}") {
				push(state{s.i + 2, s.j, s.k, '='})
			}
		case '-':
			if inA {
				push(state{s.i + 1, s.j + 1, s.k, '-'})
			}
			if strings.HasPrefix(d[s.i:], "-]") {
				push(state{s.i + 2, s.j, s.k, '='})
			}
		}
	}
	return false
}
