package checks

import (
	"time"

	"github.com/dogmatiq/testkit/fact"
	"verif/harness/sim"
)

// factTime returns the engine time according to e, if e is a fact that includes
// it.
func factTime(e *sim.Entry) (time.Time, bool) {
	switch f := e.Fact.(type) {
	case fact.DispatchCycleBegun:
		return f.EngineTime, true
	case fact.TickCycleBegun:
		return f.EngineTime, true
	}
	return time.Time{}, false
}
