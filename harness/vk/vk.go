// Package vk is the small kernel shared by all checks: it draws cases with rapid, executes them, counts what
// was covered, keeps a journal of the running case for crash attribution, and records the shrunk failure.
package vk

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Environment of a child process, set by vrun.
var (
	outDir   = os.Getenv("VK_OUT")     // scratch directory for results and journal
	replayIn = os.Getenv("VK_REPLAY")  // replay file, if replaying
	tier     = os.Getenv("VERIF_TIER") // quick or thorough
	caseMul  = envFloat("VK_CASES", 1) // multiplies case counts (development aid)
	started  = time.Now()
)

func envFloat(name string, def float64) float64 {
	if v, err := strconv.ParseFloat(os.Getenv(name), 64); err == nil && v > 0 {
		return v
	}
	return def
}

// Seed is the run's seed; rapid treats 0 as random, so it is remapped.
func Seed() int64 {
	v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		v = 1
	}
	return v
}

// Thorough tells whether the thorough tier is running.
func Thorough() bool { return tier == "thorough" }

// Obs collects what one executed case exercised.
type Obs struct {
	nontrivial bool
	labels     map[string]int
	Scale      float64 // multiplies liveness bounds (raised when a hang is re-confirmed)
}

// NonTrivial marks the case as non-trivial by the check's rule.
func (o *Obs) NonTrivial() { o.nontrivial = true }

// Label counts a class the case belongs to.
func (o *Obs) Label(format string, args ...any) {
	if o.labels == nil {
		o.labels = map[string]int{}
	}
	o.labels[fmt.Sprintf(format, args...)]++
}

// Wait is the liveness bound for something that normally takes milliseconds.
func (o *Obs) Wait() time.Duration {
	s := o.Scale
	if s == 0 {
		s = 1
	}
	return time.Duration(s * float64(20*time.Second))
}

// stuck ends the search of a check whose library calls do not return.
var stuck atomic.Bool

type livenessError struct{ msg string }

func (e *livenessError) Error() string { return e.msg }

// Stuck reports that something did not happen within the liveness bound. Such a failure is only reported
// after the same case fails again with a larger bound.
func Stuck(format string, args ...any) error {
	return &livenessError{"no progress: " + fmt.Sprintf(format, args...)}
}

type harnessError struct{ msg string }

func (e *harnessError) Error() string { return e.msg }

// Broken reports a problem of the harness or environment, never a violation.
func Broken(format string, args ...any) error {
	return &harnessError{"harness: " + fmt.Sprintf(format, args...)}
}

type knownError struct{ key, msg string }

func (e *knownError) Error() string { return e.msg }

// Known reports a violation that carries a key; it is tolerated only if the known-findings file lists that key.
func Known(key, format string, args ...any) error {
	return &knownError{key, fmt.Sprintf(format, args...)}
}

// Spec is one generated check of a property.
type Spec[C any] struct {
	ID    string // property
	Name  string // sub-check, unique within property
	Rule  string // how cases are made and what makes one non-trivial
	Gen   func(*rapid.T) C
	Exec  func(C, *Obs) error
	Quick int // number of cases
	Deep  int // number of cases in the thorough tier
	// Fixed cases executed before the generated ones.
	Fixed []C
}

// Result is what a child hands to vrun.
type Result struct {
	Property   string         `json:"property"`
	Check      string         `json:"check"`
	Rule       string         `json:"rule"`
	Evals      int            `json:"evals"`
	Distinct   int            `json:"distinct_nontrivial"`
	Skipped    int            `json:"skipped_budget"`
	Labels     map[string]int `json:"labels"`
	Samples    []string       `json:"samples"`
	Violation  string         `json:"violation,omitempty"`
	Replay     string         `json:"replay,omitempty"`
	Known      []string       `json:"known,omitempty"`
	HarnessErr string         `json:"harness_error,omitempty"`
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Check    string          `json:"check"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

var (
	watchMu    sync.Mutex
	watchStart time.Time
	watchOnce  sync.Once
	caseLimit  = 120 * time.Second
	deadline   time.Time
	seq        int64
)

// heapLimit is many times what any case needs, so a case that reaches it grows without bound.
const heapLimit = 5 << 30

// watchdog ends the process when a case runs or grows without bound.
func watchdog() {
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		if metrics.Read(heap); heap[0].Value.Uint64() > heapLimit {
			fmt.Fprintf(os.Stderr, "VK-HANG case holds more than %d GB\n", heapLimit>>30)
			os.Exit(44)
		}
		watchMu.Lock()
		s := watchStart
		watchMu.Unlock()
		if !s.IsZero() && time.Since(s) > caseLimit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "VK-HANG case still running after %v\n%s\n", caseLimit, buf[:n])
			os.Exit(44)
		}
	}
}

func journal(id, name string, raw []byte) {
	if outDir == "" {
		return
	}
	b, _ := json.Marshal(Replay{Property: id, Check: name, Case: raw})
	os.WriteFile(filepath.Join(outDir, "current.json"), b, 0o644)
}

// guarded executes a case, again if another process took a port in between.
func guarded[C any](exec func(C, *Obs) error, c C, o *Obs) (err error) {
	for tries := 0; ; tries++ {
		err = guardedOnce(exec, c, o)
		var he *harnessError
		if tries == 5 || !errors.As(err, &he) || !strings.Contains(he.msg, "address already in use") {
			return err
		}
	}
}

func guardedOnce[C any](exec func(C, *Obs) error, c C, o *Obs) (err error) {
	watchMu.Lock()
	watchStart = time.Now()
	watchMu.Unlock()
	defer func() {
		watchMu.Lock()
		if d := time.Since(watchStart); d > 5*time.Second && os.Getenv("VK_SLOW") != "" {
			b, _ := json.Marshal(c)
			if f, err := os.OpenFile(os.Getenv("VK_SLOW"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(f, "slow case (%v): %s\n", d, b)
				f.Close()
			}
		}
		watchStart = time.Time{}
		watchMu.Unlock()
		if r := recover(); r != nil {
			stack := debug.Stack()
			if s := trimStack(stack); s != "" {
				err = fmt.Errorf("panic: %v\n%s", r, s)
			} else {
				err = Broken("panic: %v\n%s", r, stack)
			}
		}
	}()
	return exec(c, o)
}

func trimStack(b []byte) string {
	var keep []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "goapi/sttp") || strings.Contains(l, "/repo/sttp") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 12 {
		keep = keep[:12]
	}
	return strings.Join(keep, "\n")
}

func known(id, key string) bool {
	b, err := os.ReadFile(os.Getenv("VK_KNOWN"))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+id+" key="+key+" ") {
			return true
		}
	}
	return false
}

// Run executes one check of a property.
func Run[C any](t *testing.T, s Spec[C]) {
	t.Helper()
	watchOnce.Do(func() {
		go watchdog()
		budget := 100 * time.Second
		if Thorough() {
			budget = 15 * time.Minute
		}
		deadline = started.Add(time.Duration(envFloat("VK_BUDGET", budget.Seconds()) * float64(time.Second)))
	})
	t.Run(s.Name, func(t *testing.T) {
		if replayIn != "" {
			runReplay(t, s)
			return
		}
		if !stuck.Load() {
			runSearch(t, s)
		}
	})
}

func runReplay[C any](t *testing.T, s Spec[C]) {
	b, err := os.ReadFile(replayIn)
	if err != nil {
		t.Fatal(err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		t.Fatal(err)
	}
	if r.Check != s.Name {
		return
	}
	var c C
	if err := json.Unmarshal(r.Case, &c); err != nil {
		t.Fatal(err)
	}
	journal(s.ID, s.Name, r.Case)
	caseLimit = 180 * time.Second
	o := &Obs{Scale: 1}
	res := Result{Property: s.ID, Check: s.Name, Rule: s.Rule, Evals: 1}
	if err := guarded(s.Exec, c, o); err != nil {
		var ke *knownError
		var he *harnessError
		switch {
		case errors.As(err, &he):
			res.HarnessErr = err.Error()
		case errors.As(err, &ke) && known(s.ID, ke.key):
			res.Known = append(res.Known, ke.msg)
		default:
			res.Violation = err.Error()
		}
	}
	writeResult(res)
	if res.Violation != "" || res.HarnessErr != "" {
		t.Fail()
	}
}

func writeResult(res Result) {
	b, _ := json.Marshal(res)
	n := atomic.AddInt64(&seq, 1)
	os.WriteFile(filepath.Join(outDir, fmt.Sprintf("result-%03d.json", n)), b, 0o644)
}

func runSearch[C any](t *testing.T, s Spec[C]) {
	res := Result{Property: s.ID, Check: s.Name, Rule: s.Rule, Labels: map[string]int{}}
	distinct := map[[32]byte]bool{}
	long := "" // a sample for when all are long
	var failCase []byte
	var failMsg string
	live := false
	knownSeen := map[string]bool{}

	fail := func(raw []byte, msg string) {
		if failCase == nil || len(raw) < len(failCase) {
			failCase, failMsg = raw, msg
		}
	}

	one := func(c C) error {
		if live || res.HarnessErr != "" {
			return nil // failure that is not shrunk
		}
		if failCase == nil && time.Now().After(deadline) {
			res.Skipped++
			return nil
		}
		raw, err := json.Marshal(c)
		if err != nil {
			res.HarnessErr = "case is not serialisable: " + err.Error()
			return err
		}
		// The executor gets the case as it would be read back from a replay file.
		var back C
		if err := json.Unmarshal(raw, &back); err != nil {
			res.HarnessErr = "case does not round-trip: " + err.Error()
			return err
		}
		journal(s.ID, s.Name, raw)
		o := &Obs{Scale: 1}
		searching := failCase == nil
		err = guarded(s.Exec, back, o)
		var le *livenessError
		if errors.As(err, &le) {
			if !searching {
				return nil
			}
			// A hang may depend on the schedule, so the case gets several chances to repeat it
			for i := 0; i < 25; i++ {
				o = &Obs{Scale: 1.5}
				if err = guarded(s.Exec, back, o); err != nil {
					break
				}
			}
			if errors.As(err, &le) {
				live = true
				stuck.Store(true)
			} else if err == nil {
				res.Labels["slow-but-live"]++
			}
		}
		if searching {
			res.Evals++
			for k, v := range o.labels {
				res.Labels[k] += v
			}
			if o.nontrivial {
				h := sha256.Sum256(raw)
				if !distinct[h] {
					distinct[h] = true
					if len(res.Samples) < 3 && len(raw) < 1500 {
						res.Samples = append(res.Samples, string(raw))
					} else if long == "" && len(raw) >= 1500 {
						long = string(raw[:1500]) + " (cut)"
					}
				}
			}
		}
		if err == nil {
			return nil
		}
		var he *harnessError
		if errors.As(err, &he) {
			res.HarnessErr = err.Error()
			return err
		}
		var ke *knownError
		if errors.As(err, &ke) && known(s.ID, ke.key) {
			if !knownSeen[ke.key] {
				knownSeen[ke.key] = true
				res.Known = append(res.Known, ke.msg)
			}
			return nil
		}
		fail(raw, err.Error())
		return err
	}

	defer func() {
		res.Distinct = len(distinct)
		if len(res.Samples) == 0 && len(distinct) > 0 {
			res.Samples = append(res.Samples, long)
		}
		if failCase != nil {
			res.Violation = failMsg
			b, _ := json.MarshalIndent(Replay{Property: s.ID, Check: s.Name, Message: failMsg, Case: failCase}, "", " ")
			h := sha256.Sum256(failCase)
			res.Replay = filepath.Join(outDir, fmt.Sprintf("fail-%s-%s-%x.json", s.ID, s.Name, h[:4]))
			os.WriteFile(res.Replay, b, 0o644)
		}
		sort.Strings(res.Known)
		writeResult(res)
	}()

	shard, shards := int(envFloat("VK_SHARD", 0)), int(envFloat("VK_SHARDS", 1))
	for _, c := range s.Fixed {
		if shard > 0 {
			break
		}
		if err := one(c); err != nil {
			t.Error(err)
			return
		}
	}

	n := s.Quick
	if Thorough() {
		n = s.Deep
		if n == 0 {
			n = 10 * s.Quick
		}
	}
	n = int(float64(n)*caseMul)/shards + 1
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", Seed(), s.ID, s.Name)
	if shard > 0 {
		fmt.Fprintf(h, "/%d", shard)
	}
	seed := h.Sum64()
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "15s")
	rapid.Check(t, func(rt *rapid.T) {
		c := s.Gen(rt)
		if err := one(c); err != nil {
			rt.Fatalf("%v", err)
		}
	})
}
