package checks

import (
	"errors"
	"fmt"
	"runtime"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/location"
	"verif/harness/tk"
)

// This file contains code the location of which is asked for. Where something
// is expected to be located is found out by calling mark() or here() on the
// same line.

// place is a line in a source file.
type place struct {
	File string
	Line int
}

func here() place {
	_, file, line, _ := runtime.Caller(1)
	return place{file, line}
}

// Functions and methods, each of which returns its own location.

func locFunc() place { return here() }

func locFuncArgs(a int, b string, c ...any) place { return here() }

func locGeneric[T any]() place { return here() }

type locValue struct{ n int }

func (locValue) Value() place { return here() }

func (v locValue) ValueArgs(int) place { return here() }

type locPointer struct{ n int }

func (*locPointer) Pointer() place { return here() }

func (locPointer) Mixed() place { return here() }

type locParam[T any] struct{}

func (locParam[T]) Param() place { return here() }

func (*locParam[T]) PointerParam() place { return here() }

type locEmbedded struct {
	locValue
	*locPointer
}

func (locEmbedded) ValueArgs(string) place { return here() }

type locNested struct {
	fmt.Stringer
	*locEmbedded
}

type locShadow struct {
	locEmbedded
	locShallow
}

type locShallow struct{}

func (locShallow) Value() place { return here() }

var locGlobal = func() place { return here() }

var locGlobals = []func() place{
	func() place { return here() },
	func() place { return func() place { return here() }() },
}

func locClosure() func() place { return func() place { return here() } }

func locNestedClosure() func() place {
	return func() func() place { return func() place { return here() } }()
}

func (locValue) Closure() func() place { return func() place { return here() } }

func locGenericClosure[T any]() func() place { return func() place { return here() } }

// definition is something that has a definition.
type definition struct {
	Name      string
	Where     place
	Loc       func() location.Location
	Anonymous bool
}

var definitions []definition

func init() {
	fn := func(name string, f any, where place) {
		definitions = append(definitions, definition{name, where, func() location.Location { return location.OfFunc(f) }, false})
	}
	closure := func(name string, f func() place) {
		definitions = append(definitions, definition{name, f(), func() location.Location { return location.OfFunc(f) }, true})
	}
	method := func(name string, recv any, m string, where place) {
		definitions = append(definitions, definition{name, where, func() location.Location { return location.OfMethod(recv, m) }, false})
	}

	fn("function", locFunc, locFunc())
	fn("function with arguments", locFuncArgs, locFuncArgs(0, ""))
	fn("generic function", locGeneric[int], locGeneric[int]())
	fn("generic function of pointer", locGeneric[*int], locGeneric[*int]())
	fn("method expression", locValue.Value, locValue{}.Value())
	fn("pointer method expression", (*locPointer).Pointer, (*locPointer)(nil).Pointer())

	method("value method", locValue{}, "Value", locValue{}.Value())
	method("value method with arguments", locValue{}, "ValueArgs", locValue{}.ValueArgs(0))
	method("value method of pointer", &locValue{}, "Value", locValue{}.Value())
	method("pointer method", &locPointer{}, "Pointer", (*locPointer)(nil).Pointer())
	method("pointer method of nil", (*locPointer)(nil), "Pointer", (*locPointer)(nil).Pointer())
	method("mixed method", &locPointer{}, "Mixed", locPointer{}.Mixed())
	method("generic method", locParam[int]{}, "Param", locParam[int]{}.Param())
	method("generic method of pointer", &locParam[string]{}, "Param", locParam[string]{}.Param())
	method("generic pointer method", &locParam[int]{}, "PointerParam", (&locParam[int]{}).PointerParam())
	method("promoted method", locEmbedded{}, "Value", locValue{}.Value())
	method("promoted method of pointer", &locEmbedded{}, "Value", locValue{}.Value())
	method("promoted pointer method", locEmbedded{}, "Pointer", (*locPointer)(nil).Pointer())
	method("overridden method", locEmbedded{}, "ValueArgs", locEmbedded{}.ValueArgs(""))
	method("twice promoted method", locNested{}, "Value", locValue{}.Value())
	method("twice promoted method of pointer", &locNested{}, "Mixed", locPointer{}.Mixed())
	method("promoted overridden method", &locNested{}, "ValueArgs", locEmbedded{}.ValueArgs(""))
	method("promoted from the shallowest", locShadow{}, "Value", locShallow{}.Value())

	closure("global closure", locGlobal)
	closure("global closure in slice", locGlobals[0])
	closure("closure", locClosure())
	closure("nested closure", locNestedClosure())
	closure("closure in method", locValue{}.Closure())
	closure("closure in generic function", locGenericClosure[int]())
	closure("local closure", func() place { return here() })
	func() {
		closure("local nested closure", func() place { return here() })
		func() {
			closure("local twice nested closure", func() place { return here() })
		}()
	}()
	for range 1 {
		defer func() {
			closure("deferred closure", func() place { return here() })
		}()
	}
}

// locRun is a running program that asks for locations.
type locRun struct {
	p *p28Program

	// i is the index of the next frame.
	i int

	// last is the location most recently marked.
	last place

	// raised is where the panic that is being dealt with was raised.
	raised place

	nop  func()
	out  location.Location
	want place

	// anonymous is true if out is within a closure.
	anonymous bool

	num  int
	zero int
	arr  []int
	np   *locValue
	m    map[string]int
	any  any
	ch   chan int
	fn   func()
	err  error
}

func newLocRun(p *p28Program) *locRun {
	ch := make(chan int)
	close(ch)
	return &locRun{p: p, any: "text", ch: ch, err: errors.New("<error>"), nop: func() {}}
}

// mark records the line from which it is called.
func (x *locRun) mark() *locRun {
	_, x.last.File, x.last.Line, _ = runtime.Caller(1)
	return x
}

// raise raises a panic.
func (x *locRun) raise(kind int) {
	switch kind % 14 {
	case 0:
		panic(x.mark())
	case 1:
		panic(x.mark().err)
	case 2:
		x.num = x.mark().np.n
	case 3:
		x.num = x.mark().arr[x.num]
	case 4:
		x.num = 1 / x.mark().zero
	case 5:
		x.mark().m["key"] = 1
	case 6:
		x.num = x.mark().any.(int)
	case 7:
		close(x.mark().ch)
	case 8:
		x.mark().fn()
	case 9:
		x.mark().ch <- 1
	case 10:
		x.arr = x.mark().arr[1:]
	case 11:
		locRaise(x.mark)
	case 12:
		locRaiseGeneric(x)
	case 13:
		func() { panic(x.mark()) }()
	}
}

func locRaise(fn func() *locRun) { panic(fn()) }

func locRaiseGeneric[T interface{ mark() *locRun }](x T) { panic(x.mark()) }

// swallow raises a panic and recovers from it.
func (x *locRun) swallow(kind int) {
	defer func() { recover() }()
	x.raise(kind)
}

// The functions that are called between others.

var locSteps []func(*locRun)

func init() {
	locSteps = []func(*locRun){
		locStep,
		locValue{}.Step,
		(*locPointer).step(nil),
		func(x *locRun) { x.next() },
		locStepDeferred,
		locStepNoop,
		locStepRethrow,
		locStepReplace,
		locStepSwallow,
		locStepSwallowDeferred,
		locStepInDefer,
		locStepGeneric[int],
		locStepRange,
		func(x *locRun) {
			for range locSeq {
				defer x.nop()
				x.next()
			}
		},
	}
}

func locStep(x *locRun) { x.next() }

func (locValue) Step(x *locRun) { x.next() }

func (p *locPointer) step() func(*locRun) { return func(x *locRun) { x.next() } }

func locStepGeneric[T any](x *locRun) { x.next() }

// locSeq is a sequence of one element.
func locSeq(yield func() bool) { yield() }

// locStepRange continues within a loop that ranges over a function.
func locStepRange(x *locRun) {
	for range locSeq {
		x.next()
	}
}

// locStepDeferred has several deferred functions.
func locStepDeferred(x *locRun) {
	defer func() {}()
	defer x.nop()
	x.next()
}

// locStepNoop recovers from nothing.
func locStepNoop(x *locRun) {
	defer func() {
		func() { recover() }()
	}()
	x.next()
}

// locStepRethrow recovers and panics with the same value again.
func locStepRethrow(x *locRun) {
	defer func() {
		if v := recover(); v != nil {
			x.rethrow(v)
		}
	}()
	x.next()
}

func (x *locRun) rethrow(v any) {
	panic(x.mark().value(v))
}

func (x *locRun) value(v any) any {
	x.raised = x.last
	return v
}

// locStepReplace replaces a panic with another one.
func locStepReplace(x *locRun) {
	normal := false
	defer func() {
		if !normal {
			panic(x.mark().value("<replaced>"))
		}
	}()
	x.next()
	normal = true
}

// locStepSwallow raises another panic first.
func locStepSwallow(x *locRun) {
	x.swallow(x.i)
	x.next()
}

// locStepSwallowDeferred raises another panic while unwinding.
func locStepSwallowDeferred(x *locRun) {
	defer func() {
		raised := x.raised
		x.swallow(x.i)
		x.raised = raised
	}()
	x.next()
}

// locStepInDefer continues within a deferred function.
func locStepInDefer(x *locRun) {
	defer func() { x.next() }()
	_ = x
}

// next calls the next function, or does what the program is about.
func (x *locRun) next() {
	if x.i < len(x.p.Path) {
		x.i++
		locSteps[x.p.Path[x.i-1]](x)
		return
	}
	switch x.p.K {
	case "call":
		x.call()
	case "action":
		x.action()
	case "panic":
		x.last = place{}
		defer func() { x.raised = x.last }()
		x.raise(x.p.N)
	}
}

// Functions that ask where they were called.

func locAsk() location.Location { return location.OfCall() }

func (locValue) Ask() location.Location { return location.OfCall() }

func (*locPointer) Ask(int) location.Location { return location.OfCall() }

func locAskGeneric[T any](T) location.Location { return location.OfCall() }

//go:noinline
func locAskNoInline() location.Location {
	x := location.OfCall()
	return x
}

func locAskVia(fn func() location.Location) location.Location { return fn() }

func (x *locRun) call() {
	switch x.p.N % 12 {
	case 0:
		x.mark().out = locAsk()
	case 1:
		x.mark().out = locValue{}.Ask()
	case 2:
		x.mark().out = (*locPointer)(nil).Ask(1)
	case 3:
		x.mark().out = locAskGeneric("a")
	case 4:
		x.mark().out = locAskNoInline()
	case 5:
		x.mark().out = func() location.Location { return location.OfCall() }()
	case 6:
		ask := func() location.Location { return location.OfCall() }
		x.mark().out = ask()
	case 7:
		func() { x.mark().out = locAsk() }()
		x.anonymous = true
	case 8:
		x.mark().out = locGlobalAsk()
	case 9:
		x.out = locAskVia(func() location.Location { return locMark(x, locAsk()) })
		x.anonymous = true
	case 10:
		func() {
			for range locSeq {
				x.mark().out = locAsk()
			}
		}()
		x.anonymous = true
	case 11:
		func() {
			for range locSeq {
				func() { x.mark().out = locAsk() }()
			}
		}()
		x.anonymous = true
	}
	x.want = x.last
}

func locMark(x *locRun, l location.Location) location.Location {
	_, x.last.File, x.last.Line, _ = runtime.Caller(1)
	return l
}

var locGlobalAsk = func() location.Location { return location.OfCall() }

// action constructs actions.
func (x *locRun) action() {
	var a testkit.Action
	switch x.p.N % 8 {
	case 0:
		a = testkit.Call(x.mark().nop)
	case 1:
		a = testkit.ExecuteCommand(x.mark().command())
	case 2:
		a = testkit.RecordEvent(x.mark().event())
	case 3:
		a = testkit.AdvanceTime(x.mark().adjustment())
	case 4:
		a = testkit.Call(x.mark().nop, testkit.InterceptCommandExecutor(tk.Forward))
	case 5:
		a = func() testkit.Action { return testkit.AdvanceTime(x.mark().adjustment()) }()
	case 6:
		a = func() testkit.Action { return testkit.ExecuteCommand(x.mark().command()) }()
	case 7:
		a = func() testkit.Action { return testkit.RecordEvent(x.mark().event()) }()
	}
	x.want = x.last
	x.out = a.Location()
}

func (x *locRun) command() tk.Perform                { return tk.NewPerform() }
func (x *locRun) event() tk.RichEvent                { return tk.RichEvent{} }
func (x *locRun) adjustment() testkit.TimeAdjustment { return testkit.ByDuration(1) }

// catch runs the program and asks for the location of the panic.
func (x *locRun) catch() (recovered bool) {
	defer func() {
		if v := recover(); v != nil {
			recovered = true
			x.want = x.raised
			for i := range x.p.Noise {
				x.swallow(x.p.N + i)
			}
			x.query(x.p.Depth)
		}
	}()
	x.next()
	return false
}

// query asks for the location of the panic at some depth of further calls.
func (x *locRun) query(depth int) {
	if depth == 0 {
		x.out = location.OfPanic()
		return
	}
	switch depth % 5 {
	case 0:
		func() { x.query(depth - 1) }()
	case 1:
		locQuery(x, depth-1)
	case 2:
		defer x.query(depth - 1)
	case 3:
		defer func() {
			recover()
			x.query(depth - 1)
		}()
	case 4:
		locValue{}.Query(x, depth-1)
	}
}

func locQuery(x *locRun, depth int) { x.query(depth) }

func (locValue) Query(x *locRun, depth int) { x.query(depth) }
