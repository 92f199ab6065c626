package tk

import (
	"context"
	"fmt"
	"math"
	"slices"
	"strconv"
	"time"

	"github.com/dogmatiq/dogma"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/structpb"
	"pgregory.net/rapid"
	"verif/harness/sim"
)

// Content is the content of a message that uses many kinds of types.
type Content struct {
	S string
	N int
	B bool
	F float64
	T time.Time
	P *Content
	V Inner
	L []*Content
	I []int
	Y []byte
	M map[string]int
	A any
	X func()
	R [2]string
	u int
}

// Inner is a struct within Content.
type Inner struct {
	Text string
	n    int
}

// Label is a named type used for the content of interfaces.
type Label string

// PlainContent is the content of a message that consists of nothing but data.
type PlainContent struct {
	S string `json:",omitempty"`
	N int    `json:"-"`
	T time.Time
	P *PlainContent `json:",omitempty"`
	I []int         `json:",omitempty"`
	Y []byte
	M map[string]int `json:",omitempty"`
	u int
}

func (c Content) plain() PlainContent {
	p := PlainContent{S: c.S, N: c.N, T: c.T, I: c.I, Y: c.Y, M: c.M, u: c.u}
	if c.P != nil {
		x := c.P.plain()
		p.P = &x
	}
	return p
}

// Spec describes the content of a message.
type Spec struct {
	S string          `json:",omitempty"`
	N int             `json:",omitempty"`
	B bool            `json:",omitempty"`
	F string          `json:",omitempty"`
	T int64           `json:",omitempty"` // seconds, zero for the zero value
	Z int             `json:",omitempty"` // offset of time zone, in hours
	P *Spec           `json:",omitempty"`
	V string          `json:",omitempty"`
	W int             `json:",omitempty"`
	L *[]*Spec        `json:",omitempty"` // nil if the slice is nil
	I *[]int          `json:",omitempty"`
	Y *string         `json:",omitempty"`
	M *map[string]int `json:",omitempty"`
	A *AnySpec        `json:",omitempty"`
	X bool            `json:",omitempty"`
	R string          `json:",omitempty"`
	U int             `json:",omitempty"`
}

// AnySpec describes the content of an interface.
type AnySpec struct {
	K string // "int", "int64", "string", "label", "slice", "struct" or "pointer"
	N int    `json:",omitempty"`
	S string `json:",omitempty"`
	C *Spec  `json:",omitempty"`
}

// Build returns new content, which shares no memory with anything else.
func (s *Spec) Build() Content {
	c := Content{
		S: s.S,
		N: s.N,
		B: s.B,
		V: Inner{s.V, s.W},
		R: [2]string{"", s.R},
		u: s.U,
	}
	c.F = float(s.F)
	if s.T != 0 {
		c.T = time.Unix(s.T, 0).In(time.FixedZone(fmt.Sprintf("Z%d", s.Z), s.Z*3600))
	}
	if s.P != nil {
		x := s.P.Build()
		c.P = &x
	}
	if s.L != nil {
		c.L = []*Content{}
		for _, e := range *s.L {
			if e == nil {
				c.L = append(c.L, nil)
				continue
			}
			x := e.Build()
			c.L = append(c.L, &x)
		}
	}
	if s.I != nil {
		c.I = append([]int{}, *s.I...)
	}
	if s.Y != nil {
		c.Y = append([]byte{}, *s.Y...)
	}
	if s.M != nil {
		c.M = map[string]int{}
		for k, v := range *s.M {
			c.M[k] = v
		}
	}
	if s.A != nil {
		switch s.A.K {
		case "int":
			c.A = s.A.N
		case "int64":
			c.A = int64(s.A.N)
		case "string":
			c.A = s.A.S
		case "label":
			c.A = Label(s.A.S)
		case "slice":
			c.A = []any{s.A.N, s.A.S, nil}
		case "struct":
			c.A = s.A.C.Build()
		case "pointer":
			x := s.A.C.Build()
			c.A = &x
		}
	}
	if s.X {
		c.X = func() {}
	}
	return c
}

func float(s string) float64 {
	if s == "nan" {
		return math.NaN()
	}
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

// Equal returns true if the contents described by s and x are deeply equal.
func (s *Spec) Equal(x *Spec) bool {
	if s == nil || x == nil {
		return s == nil && x == nil
	}
	return s.S == x.S &&
		s.N == x.N &&
		s.B == x.B &&
		float(s.F) == float(x.F) &&
		s.T == x.T && (s.T == 0 || s.Z == x.Z) &&
		s.P.Equal(x.P) &&
		s.V == x.V && s.W == x.W &&
		equalSlices(s.L, x.L, (*Spec).Equal) &&
		equalSlices(s.I, x.I, func(a, b int) bool { return a == b }) &&
		(s.Y == nil) == (x.Y == nil) && (s.Y == nil || *s.Y == *x.Y) &&
		equalMaps(s.M, x.M) &&
		s.A.Equal(x.A) &&
		!s.X && !x.X &&
		s.R == x.R &&
		s.U == x.U
}

// Equal returns true if the values described by s and x are deeply equal.
func (s *AnySpec) Equal(x *AnySpec) bool {
	if s == nil || x == nil {
		return s == nil && x == nil
	}
	if s.K != x.K {
		return false
	}
	switch s.K {
	case "int", "int64":
		return s.N == x.N
	case "string", "label":
		return s.S == x.S
	case "slice":
		return s.N == x.N && s.S == x.S
	default:
		return s.C.Equal(x.C)
	}
}

func equalSlices[T any](a, b *[]T, eq func(a, b T) bool) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return slices.EqualFunc(*a, *b, eq)
}

func equalMaps(a, b *map[string]int) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if len(*a) != len(*b) {
		return false
	}
	for k, v := range *a {
		if w, ok := (*b)[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// Irreflexive returns true if the content contains something that does not
// equal itself.
func (s *Spec) Irreflexive() bool {
	return !s.Equal(s)
}

// Plain returns the part of s that is used by plain messages.
func (s *Spec) Plain() *Spec {
	if s == nil {
		return nil
	}
	return &Spec{S: s.S, N: s.N, T: s.T, Z: s.Z, P: s.P.Plain(), I: s.I, Y: s.Y, M: s.M, U: s.U}
}

// ProtoSpec describes the content of a protocol buffers message.
type ProtoSpec struct {
	// Nil is true if there is no message.
	Nil bool `json:",omitempty"`

	Fields map[string]*ProtoValue `json:",omitempty"`

	// Empty is true if the map of fields is empty rather than nil, if there
	// are no fields.
	Empty bool `json:",omitempty"`

	// Unknown are the unknown fields.
	Unknown []UnknownField `json:",omitempty"`

	// Touch are operations that affect only the runtime's bookkeeping.
	Touch []string `json:",omitempty"`
}

// UnknownField is an unknown field in a protocol buffers message.
type UnknownField struct {
	N int
	V uint64
}

// ProtoValue describes a structpb.Value.
type ProtoValue struct {
	K string        // "null", "number", "string", "bool", "list" or "struct"
	N string        `json:",omitempty"`
	S string        `json:",omitempty"`
	B bool          `json:",omitempty"`
	L []*ProtoValue `json:",omitempty"`
	C *ProtoSpec    `json:",omitempty"`
}

// Build returns a new message.
func (s *ProtoSpec) Build() *structpb.Struct {
	if s.Nil {
		return nil
	}
	m := &structpb.Struct{}
	if len(s.Fields) > 0 || s.Empty {
		m.Fields = map[string]*structpb.Value{}
	}
	for k, v := range s.Fields {
		m.Fields[k] = v.build()
	}
	if len(s.Unknown) > 0 {
		var b []byte
		for _, u := range s.Unknown {
			b = protowire.AppendTag(b, protowire.Number(u.N), protowire.VarintType)
			b = protowire.AppendVarint(b, u.V)
		}
		m.ProtoReflect().SetUnknown(b)
	}
	for _, t := range s.Touch {
		switch t {
		case "string":
			_ = m.String()
		case "marshal":
			_, _ = proto.Marshal(m)
		case "size":
			_ = proto.Size(m)
		case "reflect":
			_ = m.ProtoReflect().IsValid()
		}
	}
	return m
}

func (v *ProtoValue) build() *structpb.Value {
	switch v.K {
	case "number":
		return structpb.NewNumberValue(float(v.N))
	case "string":
		return structpb.NewStringValue(v.S)
	case "bool":
		return structpb.NewBoolValue(v.B)
	case "list":
		l := &structpb.ListValue{}
		for _, x := range v.L {
			l.Values = append(l.Values, x.build())
		}
		return structpb.NewListValue(l)
	case "struct":
		return structpb.NewStructValue(v.C.Build())
	}
	return structpb.NewNullValue()
}

// Equal returns true if the messages described by s and x are equal, as
// protocol buffers messages.
func (s *ProtoSpec) Equal(x *ProtoSpec) bool {
	if s.Nil || x.Nil {
		return s.Nil == x.Nil
	}
	if len(s.Fields) != len(x.Fields) {
		return false
	}
	for k, v := range s.Fields {
		w, ok := x.Fields[k]
		if !ok || !v.equal(w) {
			return false
		}
	}

	// The order of unknown fields matters only within the same field.
	a, b := map[int][]uint64{}, map[int][]uint64{}
	for _, u := range s.Unknown {
		a[u.N] = append(a[u.N], u.V)
	}
	for _, u := range x.Unknown {
		b[u.N] = append(b[u.N], u.V)
	}
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if !slices.Equal(v, b[k]) {
			return false
		}
	}
	return true
}

func (v *ProtoValue) equal(w *ProtoValue) bool {
	if v.K != w.K {
		return false
	}
	switch v.K {
	case "number":
		a, b := float(v.N), float(w.N)
		return a == b || (math.IsNaN(a) && math.IsNaN(b))
	case "string":
		return v.S == w.S
	case "bool":
		return v.B == w.B
	case "list":
		return slices.EqualFunc(v.L, w.L, (*ProtoValue).equal)
	case "struct":
		return v.C.Equal(w.C)
	}
	return true
}

// The rich message types.
type (
	RichCommand  struct{ Content }
	RichEvent    struct{ Content }
	RichEvent2   struct{ Content }
	RichPointer  struct{ Content }
	PlainEvent   struct{ PlainContent }
	BiasedEvent  struct{ PlainContent }
	ProtoEvent   struct{ *structpb.Struct }
	ProtoCommand struct{ *structpb.Struct }
)

func (RichCommand) MessageDescription() string                   { return "rich command" }
func (RichCommand) Validate(dogma.CommandValidationScope) error  { return nil }
func (RichEvent) MessageDescription() string                     { return "rich event" }
func (RichEvent) Validate(dogma.EventValidationScope) error      { return nil }
func (RichEvent2) MessageDescription() string                    { return "rich event 2" }
func (RichEvent2) Validate(dogma.EventValidationScope) error     { return nil }
func (*RichPointer) MessageDescription() string                  { return "rich pointer" }
func (*RichPointer) Validate(dogma.EventValidationScope) error   { return nil }
func (PlainEvent) MessageDescription() string                    { return "plain event" }
func (PlainEvent) Validate(dogma.EventValidationScope) error     { return nil }
func (BiasedEvent) MessageDescription() string                   { return "biased event" }
func (BiasedEvent) Validate(dogma.EventValidationScope) error    { return nil }
func (ProtoEvent) MessageDescription() string                    { return "proto event" }
func (ProtoEvent) Validate(dogma.EventValidationScope) error     { return nil }
func (ProtoCommand) MessageDescription() string                  { return "proto command" }
func (ProtoCommand) Validate(dogma.CommandValidationScope) error { return nil }

// Biased events have methods that claim that all of them are the same.

func (*RichPointer) Equal(any) bool                { return true }
func (RichEvent2) Equal(dogma.Message) bool        { return false }
func (BiasedEvent) Equal(BiasedEvent) bool         { return true }
func (BiasedEvent) Compare(BiasedEvent) int        { return 0 }
func (BiasedEvent) MarshalJSON() ([]byte, error)   { return []byte("{}"), nil }
func (BiasedEvent) MarshalText() ([]byte, error)   { return []byte("biased"), nil }
func (BiasedEvent) MarshalBinary() ([]byte, error) { return []byte("biased"), nil }
func (BiasedEvent) GobEncode() ([]byte, error)     { return []byte("biased"), nil }

// RichMsg describes a rich message.
type RichMsg struct {
	K string     // "value", "pointer", "other", "plain", "biased" or "proto"
	C *Spec      `json:",omitempty"`
	P *ProtoSpec `json:",omitempty"`
}

// Build returns a new message.
func (m *RichMsg) Build() dogma.Event {
	switch m.K {
	case "value":
		return RichEvent{m.C.Build()}
	case "pointer":
		return &RichPointer{m.C.Build()}
	case "other":
		return RichEvent2{m.C.Build()}
	case "plain":
		return PlainEvent{m.C.Build().plain()}
	case "biased":
		return BiasedEvent{m.C.Build().plain()}
	case "proto":
		return ProtoEvent{m.P.Build()}
	}
	panic("unknown kind of message: " + m.K)
}

// Equal returns true if m and x are equal.
func (m *RichMsg) Equal(x *RichMsg) bool {
	if m.K != x.K {
		return false
	}
	if m.K == "proto" {
		return m.P.Equal(x.P)
	}
	return m.C.Equal(x.C)
}

// Perform is a command that causes events to be recorded.
type Perform struct {
	events []dogma.Event
}

// NewPerform returns a command that records the given events.
func NewPerform(events ...dogma.Event) Perform { return Perform{events} }

// MessageDescription returns a human-readable description.
func (Perform) MessageDescription() string { return "perform" }

// Validate returns nil.
func (Perform) Validate(dogma.CommandValidationScope) error { return nil }

// RichApp is an application that records rich events.
type RichApp struct{}

// Configure configures the application.
func (RichApp) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("rich", "0b1a1f0e-2f3d-44f3-8dc0-0a0e3ac0a001")
	c.RegisterIntegration(richHandler{})
}

type richHandler struct{}

func (richHandler) Configure(c dogma.IntegrationConfigurer) {
	c.Identity("rich-handler", "0b1a1f0e-2f3d-44f3-8dc0-0a0e3ac0a002")
	c.Routes(
		dogma.HandlesCommand[Perform](),
		dogma.RecordsEvent[RichEvent](),
		dogma.RecordsEvent[*RichPointer](),
		dogma.RecordsEvent[RichEvent2](),
		dogma.RecordsEvent[PlainEvent](),
		dogma.RecordsEvent[BiasedEvent](),
		dogma.RecordsEvent[ProtoEvent](),
	)
}

func (richHandler) HandleCommand(_ context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
	for _, e := range m.(Perform).events {
		s.RecordEvent(e)
	}
	return nil
}

var strs = []string{"", "a", "b", "ab", "foo bar", "{+x+}", "[-y-]", "line\nline", "é✓", "<message>", "%d", "\t", "\""}

// DrawSpec draws content.
func DrawSpec(t *rapid.T, depth int) *Spec {
	s := &Spec{}
	has := func() bool { return sim.OneIn(t, 3) }
	str := func() string { return sim.Pick(t, strs) }
	if has() {
		s.S = str()
	}
	if has() {
		s.N = sim.Int(t, -1, 2)
	}
	s.B = has()
	if has() {
		s.F = sim.Pick(t, []string{"0", "1.5", "-0", "nan"})
	}
	if has() {
		s.T = int64(sim.Int(t, 1, 3))
		s.Z = sim.Int(t, 0, 1)
	}
	if has() {
		s.V = str()
		s.W = sim.Int(t, 0, 1)
	}
	if has() {
		s.R = str()
	}
	if has() {
		x := []int{}
		for range sim.Int(t, 0, 2) {
			x = append(x, sim.Int(t, 0, 1))
		}
		s.I = &x
	}
	if has() {
		x := str()
		s.Y = &x
	}
	if has() {
		x := map[string]int{}
		for range sim.Int(t, 0, 2) {
			x[str()] = sim.Int(t, 0, 1)
		}
		s.M = &x
	}
	if has() {
		s.A = &AnySpec{K: sim.Pick(t, []string{"int", "int64", "string", "label", "slice", "struct", "pointer"}), N: sim.Int(t, 0, 1), S: str()}
		if s.A.K == "struct" || s.A.K == "pointer" {
			if depth > 0 {
				s.A.C = DrawSpec(t, depth-1)
			} else {
				s.A.K = "int"
			}
		}
	}
	if depth > 0 {
		if has() {
			s.P = DrawSpec(t, depth-1)
		}
		if has() {
			x := []*Spec{}
			for range sim.Int(t, 0, 2) {
				if sim.OneIn(t, 4) {
					x = append(x, nil)
				} else {
					x = append(x, DrawSpec(t, depth-1))
				}
			}
			s.L = &x
		}
	}
	s.X = sim.OneIn(t, 40)
	if sim.OneIn(t, 6) {
		s.U = 1
	}
	return s
}

// DrawProto draws a protocol buffers message.
func DrawProto(t *rapid.T, depth int) *ProtoSpec {
	s := &ProtoSpec{
		Nil:   sim.OneIn(t, 12),
		Empty: rapid.Bool().Draw(t, "empty"),
	}
	for range sim.Int(t, 0, 3) {
		if s.Fields == nil {
			s.Fields = map[string]*ProtoValue{}
		}
		s.Fields[sim.Pick(t, []string{"a", "b", "c", ""})] = drawProtoValue(t, depth)
	}
	if sim.OneIn(t, 3) {
		for range sim.Int(t, 1, 3) {
			s.Unknown = append(s.Unknown, UnknownField{sim.Int(t, 100, 101), uint64(sim.Int(t, 0, 1))})
		}
	}
	s.Touch = DrawTouch(t)
	return s
}

// DrawTouch draws operations that affect only the runtime's bookkeeping.
func DrawTouch(t *rapid.T) []string {
	return sim.Subset(t, []string{"string", "marshal", "size", "reflect"}, 0)
}

func drawProtoValue(t *rapid.T, depth int) *ProtoValue {
	v := &ProtoValue{K: sim.Pick(t, []string{"null", "number", "string", "bool", "list", "struct"})}
	switch v.K {
	case "number":
		v.N = sim.Pick(t, []string{"0", "1", "-0", "nan"})
	case "string":
		v.S = sim.Pick(t, strs)
	case "bool":
		v.B = rapid.Bool().Draw(t, "b")
	case "list":
		if depth > 0 {
			for range sim.Int(t, 0, 2) {
				v.L = append(v.L, drawProtoValue(t, depth-1))
			}
		}
	case "struct":
		v.C = &ProtoSpec{}
		if depth > 0 {
			v.C = DrawProto(t, depth-1)
			v.C.Nil = false
		}
	}
	return v
}

// DrawRich draws a message.
func DrawRich(t *rapid.T) *RichMsg {
	m := &RichMsg{K: sim.Pick(t, []string{"value", "value", "pointer", "other", "proto", "proto"})}
	if m.K == "proto" {
		m.P = DrawProto(t, 2)
	} else {
		m.C = DrawSpec(t, 2)
	}
	return m
}

// DrawPlain draws a message that consists of nothing but data.
func DrawPlain(t *rapid.T) *RichMsg {
	return &RichMsg{
		K: sim.Pick(t, []string{"plain", "plain", "biased"}),
		C: DrawSpec(t, 1).Plain(),
	}
}

// Vary returns a message that differs from m in at most one place.
func (m *RichMsg) Vary(t *rapid.T) *RichMsg {
	x := *m
	if m.K == "proto" {
		x.P = m.P.vary(t)
	} else if m.K == "plain" || m.K == "biased" {
		if sim.OneIn(t, 8) {
			x.K = sim.Pick(t, []string{"plain", "biased"})
		} else {
			x.C = m.C.vary(t, 1).Plain()
		}
	} else if sim.OneIn(t, 8) {
		x.K = sim.Pick(t, []string{"value", "pointer", "other"})
	} else {
		x.C = m.C.vary(t, 2)
	}
	return &x
}

func (s *Spec) vary(t *rapid.T, depth int) *Spec {
	x := *s
	d := DrawSpec(t, 1)
	switch sim.Int(t, 0, 17) {
	case 0:
		x.S = d.S
	case 1:
		x.N = d.N
	case 2:
		x.B = !x.B
	case 3:
		x.F = d.F
	case 4:
		x.T, x.Z = d.T, d.Z
	case 5:
		x.V = d.V
	case 6:
		x.W = d.W
	case 7:
		x.I = d.I
	case 8:
		x.Y = d.Y
	case 9:
		x.M = d.M
	case 10:
		x.A = d.A
	case 11:
		x.R = d.R
	case 12:
		x.U = 1 - x.U
	case 13:
		x.Z = 1 - x.Z
	case 14:
		x.L = d.L
	case 15:
		x.P = d.P
	default:
		if depth == 0 {
			break
		}
		if x.P != nil {
			x.P = x.P.vary(t, depth-1)
		} else if x.L != nil && len(*x.L) > 0 {
			l := slices.Clone(*x.L)
			i := sim.Int(t, 0, len(l)-1)
			if l[i] != nil {
				l[i] = l[i].vary(t, depth-1)
			}
			x.L = &l
		} else if x.A != nil && x.A.C != nil {
			a := *x.A
			a.C = a.C.vary(t, depth-1)
			x.A = &a
		}
	}
	return &x
}

func (s *ProtoSpec) vary(t *rapid.T) *ProtoSpec {
	x := *s
	d := DrawProto(t, 1)
	switch sim.Int(t, 0, 6) {
	case 0:
		x.Nil = !x.Nil
	case 1:
		x.Empty = !x.Empty
	case 2:
		x.Unknown = d.Unknown
	case 3:
		x.Unknown = slices.Clone(x.Unknown)
		slices.Reverse(x.Unknown)
	case 4:
		x.Touch = DrawTouch(t)
	default:
		x.Fields = map[string]*ProtoValue{}
		for k, v := range s.Fields {
			x.Fields[k] = v
		}
		k := sim.Pick(t, []string{"a", "b", "c"})
		if sim.OneIn(t, 3) {
			delete(x.Fields, k)
		} else {
			x.Fields[k] = drawProtoValue(t, 1)
		}
	}
	return &x
}

// Walk calls fn for s and everything within it.
func (s *Spec) Walk(fn func(*Spec)) {
	if s == nil {
		return
	}
	fn(s)
	s.P.Walk(fn)
	if s.L != nil {
		for _, e := range *s.L {
			e.Walk(fn)
		}
	}
	if s.A != nil {
		s.A.C.Walk(fn)
	}
}

// Forward is an interceptor that passes commands on.
func Forward(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
	return e.ExecuteCommand(ctx, m)
}
