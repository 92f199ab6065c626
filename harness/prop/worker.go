package prop

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strconv"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// WorkerResult is the outcome of one worker.
type WorkerResult struct {
	Evaluations int
	Hashes      []uint64
	Classes     map[string]int
	Samples     []json.RawMessage
	Failure     *Failure
	Truncated   bool
	Invalid     string
}

// Failure describes a violation.
type Failure struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

// tb is the rapid.TB used by workers.
type tb struct {
	failed bool
	logs   []string
}

type abort struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(f string, a ...any)   { t.logs = append(t.logs, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.logs = append(t.logs, fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic(abort{}) }
func (t *tb) Skip(a ...any)             { panic(abort{}) }
func (t *tb) SkipNow()                  { panic(abort{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; panic(abort{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

// hangLimit is how long a single case may take before the worker gives up on
// it. Cases take milliseconds; a case that takes this long is stuck.
const hangLimit = 90 * time.Second

// hangExitCode is the exit code of a worker that is stuck.
const hangExitCode = 77

// Work runs one worker and writes its result to dir.
func Work(p *Property, dir string, index int, seed uint64, checks int, budget time.Duration) error {
	must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
	must(flag.Set("rapid.checks", strconv.Itoa(checks)))
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "25s"))

	var (
		res     = WorkerResult{Classes: map[string]int{}}
		seen    = map[uint64]struct{}{}
		current = filepath.Join(dir, fmt.Sprintf("current-%d.json", index))
		start   = time.Now()
		begun   atomic.Int64
	)

	go func() {
		for {
			time.Sleep(time.Second)
			if b := begun.Load(); b != 0 && time.Since(time.Unix(0, b)) > hangLimit {
				fmt.Fprintln(os.Stderr, "worker is stuck in one case")
				os.Exit(hangExitCode)
			}
		}
	}()

	t := &tb{}

	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); !ok {
					panic(r)
				}
			}
		}()

		rapid.Check(t, func(rt *rapid.T) {
			if res.Failure == nil && time.Since(start) > budget {
				res.Truncated = true
				return
			}

			data, err := json.Marshal(p.draw(rt))
			if err != nil {
				panic(err)
			}

			must(os.WriteFile(current, data, 0o644))

			st := &Stats{}
			begun.Store(time.Now().UnixNano())
			err = p.judge(data, st)
			begun.Store(0)

			if res.Failure == nil {
				res.Evaluations++
				for c := range st.classes {
					res.Classes[c]++
				}
				if st.nontrivial {
					h := fnv.New64a()
					h.Write(data)
					k := h.Sum64()
					if _, ok := seen[k]; !ok {
						seen[k] = struct{}{}
						if len(data) < 3000 && (len(res.Samples) == 0 || (len(res.Samples) < 2 && len(seen)%97 == 0)) {
							res.Samples = append(res.Samples, data)
						}
					}
				}
			}

			if err != nil {
				if res.Failure == nil || len(data) <= len(res.Failure.Case) {
					res.Failure = &Failure{p.ID, err.Error(), data}
				}
				rt.Fatalf("violation")
			}
		})
	}()

	if t.failed && res.Failure == nil {
		res.Invalid = fmt.Sprint(t.logs)
	}

	for k := range seen {
		res.Hashes = append(res.Hashes, k)
	}

	data, err := json.Marshal(res)
	if err != nil {
		return err
	}

	return os.WriteFile(filepath.Join(dir, fmt.Sprintf("result-%d.json", index)), data, 0o644)
}

// Replay judges a recorded failure without using rapid, up to n times.
func Replay(f Failure, n int) error {
	p, ok := Get(f.Property)
	if !ok {
		panic("unknown property " + f.Property)
	}
	for i := 0; i < n; i++ {
		if err := p.judge(f.Case, &Stats{}); err != nil {
			return err
		}
	}
	return nil
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
