package sim

import (
	"fmt"
	"slices"
	"sort"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
)

// The kinds of handlers.
const (
	Aggregate   = "aggregate"
	Process     = "process"
	Integration = "integration"
	Projection  = "projection"
)

// Handler describes a handler.
type Handler struct {
	Name     string
	Type     string
	Consumes []string
	Produces []string `json:",omitempty"`
	Timeouts []string `json:",omitempty"`
	Disabled bool     `json:",omitempty"`

	// Root is the kind of root used by a process: "", "map" or "stateless".
	Root string `json:",omitempty"`

	// Broadcast is 1 or 2 if a projection has a broadcast delivery policy,
	// which asks for the primary delivery to be first if it is 2.
	Broadcast int `json:",omitempty"`

	// Outcomes of the N'th call to each of a projection's methods that are not
	// told about the event.
	Version []Op `json:",omitempty"` // Fail, or Log to return S
	Close   []Op `json:",omitempty"` // Fail
	Compact []Op `json:",omitempty"` // Fail, Log, Panic, Yield
}

// App describes an application.
type App struct {
	Handlers []*Handler
}

// Handler returns the handler with the given name.
func (a *App) Handler(name string) *Handler {
	for _, h := range a.Handlers {
		if h.Name == name {
			return h
		}
	}
	return nil
}

// ConsumersOf returns the names of the handlers that consume the given type.
func (a *App) ConsumersOf(t string) []*Handler {
	var res []*Handler
	for _, h := range a.Handlers {
		if slices.Contains(h.Consumes, t) {
			res = append(res, h)
		}
	}
	return res
}

// ProducersOf returns the names of the handlers that produce the given type.
func (a *App) ProducersOf(t string) []*Handler {
	var res []*Handler
	for _, h := range a.Handlers {
		if slices.Contains(h.Produces, t) || slices.Contains(h.Timeouts, t) {
			res = append(res, h)
		}
	}
	return res
}

// Consumed returns the command and event types that are consumed by some
// handler.
func (a *App) Consumed() []string {
	var res []string
	for _, t := range append(append([]string(nil), Commands...), Events...) {
		if len(a.ConsumersOf(t)) > 0 {
			res = append(res, t)
		}
	}
	return res
}

// HandlerType returns the configkit handler type.
func (h *Handler) HandlerType() configkit.HandlerType {
	return configkit.HandlerType(h.Type)
}

// key returns the identity key of the n'th handler.
func key(n int) string {
	return fmt.Sprintf("5f1c6f0a-7d0d-4c6d-9a8c-%012d", n)
}

func consumes(t string) dogma.Route {
	switch t {
	case "C0":
		return dogma.HandlesCommand[C0]()
	case "C1":
		return dogma.HandlesCommand[C1]()
	case "C2":
		return dogma.HandlesCommand[C2]()
	case "C3":
		return dogma.HandlesCommand[C3]()
	case "E0":
		return dogma.HandlesEvent[E0]()
	case "E1":
		return dogma.HandlesEvent[E1]()
	case "E2":
		return dogma.HandlesEvent[E2]()
	case "E3":
		return e3.consumes()
	case "E4":
		return dogma.HandlesEvent[E4]()
	}
	panic(t)
}

func produces(t string) dogma.Route {
	switch t {
	case "C0":
		return dogma.ExecutesCommand[C0]()
	case "C1":
		return dogma.ExecutesCommand[C1]()
	case "C2":
		return dogma.ExecutesCommand[C2]()
	case "C3":
		return dogma.ExecutesCommand[C3]()
	case "E0":
		return dogma.RecordsEvent[E0]()
	case "E1":
		return dogma.RecordsEvent[E1]()
	case "E2":
		return dogma.RecordsEvent[E2]()
	case "E3":
		return e3.produces()
	case "E4":
		return dogma.RecordsEvent[E4]()
	case "T0":
		return dogma.SchedulesTimeout[T0]()
	case "T1":
		return dogma.SchedulesTimeout[T1]()
	case "T2":
		return dogma.SchedulesTimeout[T2]()
	}
	panic(t)
}

func routes[R any](h *Handler) []R {
	var res []R
	for _, t := range h.Consumes {
		res = append(res, consumes(t).(R))
	}
	for _, t := range h.Produces {
		res = append(res, produces(t).(R))
	}
	for _, t := range h.Timeouts {
		res = append(res, produces(t).(R))
	}
	return res
}

// application is the implementation of dogma.Application for an App.
type application struct {
	world *World
}

func (a *application) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("sim-app", key(999))

	for i, h := range a.world.App.Handlers {
		b := base{a.world, h, key(i)}
		switch h.Type {
		case Aggregate:
			c.RegisterAggregate(&AggregateHandler{base: b})
		case Process:
			c.RegisterProcess(&ProcessHandler{base: b})
		case Integration:
			c.RegisterIntegration(&IntegrationHandler{base: b})
		case Projection:
			c.RegisterProjection(&ProjectionHandler{base: b})
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
