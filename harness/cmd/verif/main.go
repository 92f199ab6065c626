// Command verif checks properties of dogmatiq/testkit by generated-input search.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	_ "verif/harness/checks"
	"verif/harness/prop"
)

func main() {
	testing.Init()
	flag.CommandLine.Parse(nil)

	if len(os.Args) < 2 {
		fail("usage: verif check|worker|replay|list ...")
	}

	switch os.Args[1] {
	case "list":
		for _, p := range prop.All() {
			fmt.Printf("%s race=%v quick=%d thorough=%d\n", p.ID, p.Race, p.Quick, p.Thorough)
		}
	case "race":
		p, ok := prop.Get(os.Args[2])
		if !ok {
			fail("unknown property " + os.Args[2])
		}
		fmt.Println(p.Race)
	case "worker":
		if f := os.Getenv("VERIF_CPUPROFILE"); f != "" {
			w, err := os.Create(f)
			must(err)
			must(pprof.StartCPUProfile(w))
			defer pprof.StopCPUProfile()
		}
		worker(os.Args[2:])
	case "check":
		check(os.Args[2])
	case "replay":
		replay(os.Args[2])
	default:
		fail("unknown command")
	}
}

func fail(msg string) {
	fmt.Fprintln(os.Stderr, "ERROR:", msg)
	os.Exit(2)
}

func worker(args []string) {
	p, ok := prop.Get(args[0])
	if !ok {
		fail("unknown property")
	}
	index, _ := strconv.Atoi(args[2])
	seed, _ := strconv.ParseUint(args[3], 10, 64)
	checks, _ := strconv.Atoi(args[4])
	budget, _ := strconv.Atoi(args[5])

	if err := prop.Work(p, args[1], index, seed, checks, time.Duration(budget)*time.Second); err != nil {
		fail(err.Error())
	}
}

func replay(file string) {
	data, err := os.ReadFile(file)
	if err != nil {
		fail(err.Error())
	}
	var f prop.Failure
	if err := json.Unmarshal(data, &f); err != nil {
		fail(err.Error())
	}
	if err := prop.Replay(f, 100); err != nil {
		fmt.Println(err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
		os.Exit(1)
	}
	fmt.Println("the case passes")
}

func check(id string) {
	start := time.Now()

	p, ok := prop.Get(id)
	if !ok {
		fail("unknown property " + id)
	}

	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}

	cases, budget := p.Quick, 300
	if tier == "thorough" {
		cases, budget = p.Thorough, 700
	}

	workers := min(8, max(2, runtime.NumCPU()))
	if p.Workers != 0 {
		workers = p.Workers
	}

	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}

	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fail(err.Error())
	}
	defer os.RemoveAll(dir)

	exe, err := os.Executable()
	if err != nil {
		fail(err.Error())
	}

	var (
		wg     sync.WaitGroup
		mu     sync.Mutex
		cmds   = make([]*exec.Cmd, workers)
		crash  = make([]string, workers)
		hung   = make([]bool, workers)
		killed bool

		outputs = make([]*bytes.Buffer, workers)
	)

	for i := range cmds {
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s/%d", seed, id, i)
		s := h.Sum64() | 1

		cmd := exec.Command(
			exe, "worker", id, dir,
			strconv.Itoa(i),
			strconv.FormatUint(s, 10),
			strconv.Itoa((cases+workers-1)/workers),
			strconv.Itoa(budget),
		)
		stderr := &bytes.Buffer{}
		cmd.Stderr = stderr
		cmd.Stdout = stderr
		cmd.Env = append(
			os.Environ(),
			"GOMAXPROCS=4",
			"GORACE=log_path="+filepath.Join(dir, fmt.Sprintf("race-%d", i))+" exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0",
			"VERIF_RACE_LOG="+filepath.Join(dir, fmt.Sprintf("race-%d", i)),
		)
		cmds[i] = cmd
		outputs[i] = stderr
	}

	for _, cmd := range cmds {
		if err := cmd.Start(); err != nil {
			fail(err.Error())
		}
	}

	for i, cmd := range cmds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := cmd.Wait()

			mu.Lock()
			defer mu.Unlock()

			if err != nil && !killed {
				crash[i] = fmt.Sprintf("%s\n%s", err, tail(outputs[i].String()))
				var xerr *exec.ExitError
				if errors.As(err, &xerr) && xerr.ExitCode() == 77 {
					hung[i] = true
				}
			}

			if res, ok := load(dir, i); (ok && res.Failure != nil) || (err != nil && !killed) {
				killed = true
				for _, c := range cmds {
					if c != cmd {
						c.Process.Kill()
					}
				}
			}
		}()
	}
	wg.Wait()

	var (
		total    = prop.WorkerResult{Classes: map[string]int{}}
		distinct = map[uint64]struct{}{}
		invalid  string
	)

	for i := range cmds {
		res, ok := load(dir, i)
		if !ok {
			continue
		}
		total.Evaluations += res.Evaluations
		for c, n := range res.Classes {
			total.Classes[c] += n
		}
		for _, h := range res.Hashes {
			distinct[h] = struct{}{}
		}
		if len(total.Samples) < 3 {
			total.Samples = append(total.Samples, res.Samples...)
		}
		total.Truncated = total.Truncated || res.Truncated
		if res.Failure != nil && (total.Failure == nil || len(res.Failure.Case) < len(total.Failure.Case)) {
			total.Failure = res.Failure
		}
		if res.Invalid != "" {
			invalid = res.Invalid
		}
	}

	// A worker that died may have been killed by the code under test. The last
	// case it began is tried again in processes of its own.
	var crashed string
	if total.Failure == nil {
		for i := range cmds {
			if crash[i] == "" {
				continue
			}
			crashed = crash[i]
			data, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("current-%d.json", i)))
			if err != nil {
				continue
			}
			f := &prop.Failure{Property: id, Message: "worker died: " + crash[i], Case: data}
			if confirm(exe, dir, f, hung[i]) {
				total.Failure = f
				break
			}
		}
	}

	violations := 0
	if total.Failure != nil {
		violations = 1
	}

	classes := map[string]int{}
	for c, n := range total.Classes {
		classes[c] = n
	}

	var samples []json.RawMessage
	for _, s := range total.Samples {
		if len(samples) < 3 {
			samples = append(samples, s)
		}
	}
	if total.Failure != nil {
		samples = append(samples, total.Failure.Case)
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}

	evidence := map[string]any{
		"property": id,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         total.Evaluations,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"cases_by_class":      classes,
			"samples":             samples,
			"truncated_by_budget": total.Truncated,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if p.Assumptions == nil {
		evidence["assumptions"] = []string{}
	}

	data, err := json.MarshalIndent(evidence, "", " ")
	if err != nil {
		fail(err.Error())
	}
	must(os.MkdirAll(filepath.Join(root, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(data, '\n'), 0o644))

	fmt.Printf(
		"%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n",
		id, tier, seed, total.Evaluations, len(distinct), time.Since(start).Seconds(),
	)
	var names []string
	for c := range classes {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, c := range names {
		fmt.Printf("  %-40s %6d (%.1f%%)\n", c, classes[c], 100*float64(classes[c])/float64(max(1, total.Evaluations)))
	}

	if f := total.Failure; f != nil {
		path := filepath.Join(root, "replays", fmt.Sprintf("%s-%s-%d.json", id, tier, seed))
		must(os.MkdirAll(filepath.Dir(path), 0o755))
		data, err := json.MarshalIndent(f, "", " ")
		if err != nil {
			fail(err.Error())
		}
		must(os.WriteFile(path, append(data, '\n'), 0o644))
		fmt.Println(f.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		os.RemoveAll(dir)
		os.Exit(1)
	}

	if crashed != "" {
		os.RemoveAll(dir)
		fail("a worker died: " + crashed)
	}
	if invalid != "" {
		os.RemoveAll(dir)
		fail("generation failed: " + invalid)
	}
	if total.Evaluations == 0 {
		os.RemoveAll(dir)
		fail("no cases were evaluated")
	}
}

// confirm returns true if replaying f reliably kills (or hangs) the process.
func confirm(exe, dir string, f *prop.Failure, hung bool) bool {
	data, err := json.Marshal(f)
	if err != nil {
		return false
	}
	path := filepath.Join(dir, "crash.json")
	must(os.WriteFile(path, data, 0o644))

	for i := 0; i < 3; i++ {
		cmd := exec.Command(exe, "replay", path)
		out := &bytes.Buffer{}
		cmd.Stdout = out
		cmd.Stderr = out
		if err := cmd.Start(); err != nil {
			return false
		}

		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()

		select {
		case err := <-done:
			if err != nil {
				f.Message += "\non replay:\n" + tail(out.String())
				return true
			}
		case <-time.After(100 * time.Second):
			cmd.Process.Kill()
			<-done
			if hung {
				f.Message += "\nthe operation never finishes, also on replay"
				return true
			}
		}
	}
	return false
}

func load(dir string, i int) (prop.WorkerResult, bool) {
	var res prop.WorkerResult
	data, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result-%d.json", i)))
	if err != nil {
		return res, false
	}
	if err := json.Unmarshal(data, &res); err != nil {
		return res, false
	}
	return res, true
}

func tail(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = append(lines[:40], lines[len(lines)-20:]...)
	}
	return strings.Join(lines, "\n")
}

func must(err error) {
	if err != nil {
		fail(err.Error())
	}
}
