package checks

// The functions in this file are identical, except for their identity. They
// contain the calls made by user-defined checks, so that the locations of these
// calls differ.

type satisfySlot struct{}

var satisfySlots []func(*satisfyRun)

func init() {
	satisfySlots = []func(*satisfyRun){
		satisfySlot0,
		satisfySlot1,
		satisfySlot{}.Method,
		(&satisfySlot{}).PointerMethod,
		satisfySlotClosure,
		satisfyMain,
		nil,
		nil,
		satisfyNested,
		satisfySlot0, // the inner function can not be called directly
	}
}

func satisfySlot0(x *satisfyRun) {
	defer x.enter(0)()
	if x.helper() {
		x.t.Helper()
	}
	switch op := x.op(); op.K {
	case "next":
		satisfySlots[x.next()](x.mark())
	case "fail":
		x.mark().t.Fail()
	case "failnow":
		x.mark().t.FailNow()
	case "error":
		x.mark().t.Error(op.args()...)
	case "errorf":
		x.mark().t.Errorf(op.format(), op.args()...)
	case "fatal":
		x.mark().t.Fatal(op.args()...)
	case "fatalf":
		x.mark().t.Fatalf(op.format(), op.args()...)
	case "skip":
		x.mark().t.Skip(op.args()...)
	case "skipf":
		x.mark().t.Skipf(op.format(), op.args()...)
	case "skipnow":
		x.mark().t.SkipNow()
	case "log":
		x.mark().t.Log(op.args()...)
	case "logf":
		x.mark().t.Logf(op.format(), op.args()...)
	default:
		x.other(op)
	}
}

func satisfySlot1(x *satisfyRun) {
	defer x.enter(1)()
	if x.helper() {
		x.t.Helper()
	}
	switch op := x.op(); op.K {
	case "next":
		satisfySlots[x.next()](x.mark())
	case "fail":
		x.mark().t.Fail()
	case "failnow":
		x.mark().t.FailNow()
	case "error":
		x.mark().t.Error(op.args()...)
	case "errorf":
		x.mark().t.Errorf(op.format(), op.args()...)
	case "fatal":
		x.mark().t.Fatal(op.args()...)
	case "fatalf":
		x.mark().t.Fatalf(op.format(), op.args()...)
	case "skip":
		x.mark().t.Skip(op.args()...)
	case "skipf":
		x.mark().t.Skipf(op.format(), op.args()...)
	case "skipnow":
		x.mark().t.SkipNow()
	case "log":
		x.mark().t.Log(op.args()...)
	case "logf":
		x.mark().t.Logf(op.format(), op.args()...)
	default:
		x.other(op)
	}
}

func (satisfySlot) Method(x *satisfyRun) {
	defer x.enter(2)()
	if x.helper() {
		x.t.Helper()
	}
	switch op := x.op(); op.K {
	case "next":
		satisfySlots[x.next()](x.mark())
	case "fail":
		x.mark().t.Fail()
	case "failnow":
		x.mark().t.FailNow()
	case "error":
		x.mark().t.Error(op.args()...)
	case "errorf":
		x.mark().t.Errorf(op.format(), op.args()...)
	case "fatal":
		x.mark().t.Fatal(op.args()...)
	case "fatalf":
		x.mark().t.Fatalf(op.format(), op.args()...)
	case "skip":
		x.mark().t.Skip(op.args()...)
	case "skipf":
		x.mark().t.Skipf(op.format(), op.args()...)
	case "skipnow":
		x.mark().t.SkipNow()
	case "log":
		x.mark().t.Log(op.args()...)
	case "logf":
		x.mark().t.Logf(op.format(), op.args()...)
	default:
		x.other(op)
	}
}

func (*satisfySlot) PointerMethod(x *satisfyRun) {
	defer x.enter(3)()
	if x.helper() {
		x.t.Helper()
	}
	switch op := x.op(); op.K {
	case "next":
		satisfySlots[x.next()](x.mark())
	case "fail":
		x.mark().t.Fail()
	case "failnow":
		x.mark().t.FailNow()
	case "error":
		x.mark().t.Error(op.args()...)
	case "errorf":
		x.mark().t.Errorf(op.format(), op.args()...)
	case "fatal":
		x.mark().t.Fatal(op.args()...)
	case "fatalf":
		x.mark().t.Fatalf(op.format(), op.args()...)
	case "skip":
		x.mark().t.Skip(op.args()...)
	case "skipf":
		x.mark().t.Skipf(op.format(), op.args()...)
	case "skipnow":
		x.mark().t.SkipNow()
	case "log":
		x.mark().t.Log(op.args()...)
	case "logf":
		x.mark().t.Logf(op.format(), op.args()...)
	default:
		x.other(op)
	}
}

var satisfySlotClosure = func(x *satisfyRun) {
	defer x.enter(4)()
	if x.helper() {
		x.t.Helper()
	}
	switch op := x.op(); op.K {
	case "next":
		satisfySlots[x.next()](x.mark())
	case "fail":
		x.mark().t.Fail()
	case "failnow":
		x.mark().t.FailNow()
	case "error":
		x.mark().t.Error(op.args()...)
	case "errorf":
		x.mark().t.Errorf(op.format(), op.args()...)
	case "fatal":
		x.mark().t.Fatal(op.args()...)
	case "fatalf":
		x.mark().t.Fatalf(op.format(), op.args()...)
	case "skip":
		x.mark().t.Skip(op.args()...)
	case "skipf":
		x.mark().t.Skipf(op.format(), op.args()...)
	case "skipnow":
		x.mark().t.SkipNow()
	case "log":
		x.mark().t.Log(op.args()...)
	case "logf":
		x.mark().t.Logf(op.format(), op.args()...)
	default:
		x.other(op)
	}
}

// satisfyNested contains a function that may be called only by itself.
func satisfyNested(x *satisfyRun) {
	defer x.enter(satisfyOuter)()
	if x.helper() {
		x.t.Helper()
	}
	inner := func(x *satisfyRun) {
		defer x.enter(satisfyInner)()
		if x.helper() {
			x.t.Helper()
		}
		switch op := x.op(); op.K {
		case "next":
			satisfySlots[x.next()](x.mark())
		case "fail":
			x.mark().t.Fail()
		case "failnow":
			x.mark().t.FailNow()
		case "error":
			x.mark().t.Error(op.args()...)
		case "errorf":
			x.mark().t.Errorf(op.format(), op.args()...)
		case "fatal":
			x.mark().t.Fatal(op.args()...)
		case "fatalf":
			x.mark().t.Fatalf(op.format(), op.args()...)
		case "skip":
			x.mark().t.Skip(op.args()...)
		case "skipf":
			x.mark().t.Skipf(op.format(), op.args()...)
		case "skipnow":
			x.mark().t.SkipNow()
		case "log":
			x.mark().t.Log(op.args()...)
		case "logf":
			x.mark().t.Logf(op.format(), op.args()...)
		default:
			x.other(op)
		}
	}

	switch op := x.op(); op.K {
	case "next":
		if x.next() == satisfyInner {
			inner(x.mark())
			break
		}
		satisfySlots[x.next()](x.mark())
	case "fail":
		x.mark().t.Fail()
	case "failnow":
		x.mark().t.FailNow()
	case "error":
		x.mark().t.Error(op.args()...)
	case "errorf":
		x.mark().t.Errorf(op.format(), op.args()...)
	case "fatal":
		x.mark().t.Fatal(op.args()...)
	case "fatalf":
		x.mark().t.Fatalf(op.format(), op.args()...)
	case "skip":
		x.mark().t.Skip(op.args()...)
	case "skipf":
		x.mark().t.Skipf(op.format(), op.args()...)
	case "skipnow":
		x.mark().t.SkipNow()
	case "log":
		x.mark().t.Log(op.args()...)
	case "logf":
		x.mark().t.Logf(op.format(), op.args()...)
	default:
		x.other(op)
	}
}

// satisfyMain performs all of the operations of a check or cleanup function.
func satisfyMain(x *satisfyRun) {
	defer x.enter(5)()
	if x.helper() {
		x.t.Helper()
	}
	for x.more() {
		switch op := x.op(); op.K {
		case "next":
			satisfySlots[x.next()](x.mark())
		case "helper":
			x.t.Helper()
			x.helpers[satisfyMainFunc] = true
		case "fail":
			x.mark().t.Fail()
		case "failnow":
			x.mark().t.FailNow()
		case "error":
			x.mark().t.Error(op.args()...)
		case "errorf":
			x.mark().t.Errorf(op.format(), op.args()...)
		case "fatal":
			x.mark().t.Fatal(op.args()...)
		case "fatalf":
			x.mark().t.Fatalf(op.format(), op.args()...)
		case "skip":
			x.mark().t.Skip(op.args()...)
		case "skipf":
			x.mark().t.Skipf(op.format(), op.args()...)
		case "skipnow":
			x.mark().t.SkipNow()
		case "log":
			x.mark().t.Log(op.args()...)
		case "logf":
			x.mark().t.Logf(op.format(), op.args()...)
		default:
			x.other(op)
		}
	}
}
