// Package prop is a small framework for properties that are decided by drawing
// JSON-serialisable cases with rapid and judging each with a pure function.
package prop

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"

	"pgregory.net/rapid"
)

// Stats collects measurements about one case.
type Stats struct {
	classes    map[string]struct{}
	nontrivial bool
}

// Class labels the case as belonging to the given class.
func (s *Stats) Class(names ...string) {
	for _, n := range names {
		if s.classes == nil {
			s.classes = map[string]struct{}{}
		}
		s.classes[n] = struct{}{}
	}
}

// ClassIf labels the case as belonging to the given class if cond is true.
func (s *Stats) ClassIf(cond bool, name string) {
	if cond {
		s.Class(name)
	}
}

// NonTrivial marks the case as non-trivial.
func (s *Stats) NonTrivial(cond bool) {
	if cond {
		s.nontrivial = true
	}
}

// Options describes how a property is checked.
type Options struct {
	// Rule explains how cases are made and what makes one non-trivial.
	Rule string

	// Quick and Thorough are the number of cases drawn per tier.
	Quick, Thorough int

	// Race causes the property to be checked by a binary built with the race
	// detector.
	Race bool

	// Repeat is the number of times each case is judged, to sample the
	// non-determinism that is not under the control of the case.
	Repeat int

	// Workers limits the number of worker processes (0 = default).
	Workers int

	// Assumptions are reported in the evidence.
	Assumptions []string
}

// Property is a registered property.
type Property struct {
	ID string
	Options

	draw  func(*rapid.T) any
	judge func([]byte, *Stats) error
}

var registry = map[string]*Property{}

// Get returns the property with the given ID.
func Get(id string) (*Property, bool) {
	p, ok := registry[id]
	return p, ok
}

// All returns all properties, by ID.
func All() []*Property {
	var all []*Property
	for _, p := range registry {
		all = append(all, p)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].ID < all[j].ID })
	return all
}

// Register adds a property.
func Register[C any](
	id string,
	opts Options,
	draw func(*rapid.T) C,
	judge func(*C, *Stats) error,
) {
	if opts.Repeat == 0 {
		opts.Repeat = 1
	}

	registry[id] = &Property{
		ID:      id,
		Options: opts,
		draw: func(t *rapid.T) any {
			return draw(t)
		},
		judge: func(data []byte, st *Stats) (err error) {
			for i := 0; i < opts.Repeat; i++ {
				var c C
				if err := json.Unmarshal(data, &c); err != nil {
					panic(fmt.Sprintf("case can not be decoded: %s", err))
				}
				if err := guard(func() error { return judge(&c, st) }); err != nil {
					return err
				}
			}
			return nil
		},
	}
}

// guard calls fn and converts panics to errors.
func guard(fn func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("unexpected panic: %v\n%s", r, debug.Stack())
		}
	}()
	return fn()
}
