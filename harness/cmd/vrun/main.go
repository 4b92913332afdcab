// vrun runs the check of one property: it builds the harness against the current /repo tree, runs the search in a
// child process, attributes crashes to the journalled case, writes the evidence file and reports the outcome.
//
// Exit status: 0 held, 1 violated (with a VIOLATION line), anything else an error of the check.
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type result struct {
	Property   string         `json:"property"`
	Check      string         `json:"check"`
	Rule       string         `json:"rule"`
	Evals      int            `json:"evals"`
	Distinct   int            `json:"distinct_nontrivial"`
	Skipped    int            `json:"skipped_budget"`
	Labels     map[string]int `json:"labels"`
	Samples    []string       `json:"samples"`
	Violation  string         `json:"violation"`
	Replay     string         `json:"replay"`
	Known      []string       `json:"known"`
	HarnessErr string         `json:"harness_error"`
}

type replay struct {
	Property string          `json:"property"`
	Check    string          `json:"check"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

var (
	root    string
	scratch string
	bin     string
)

func die(code int, format string, args ...any) {
	fmt.Fprintf(os.Stderr, "vrun: "+format+"\n", args...)
	cleanup()
	os.Exit(code)
}

func cleanup() {
	if scratch != "" && strings.HasPrefix(filepath.Base(scratch), "vrun-") {
		os.RemoveAll(scratch)
	}
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vrun <property> quick|thorough | vrun replay <file>")
		os.Exit(2)
	}
	exe, _ := filepath.Abs(os.Getenv("VK_ROOT"))
	root = exe
	var err error
	scratch, err = os.MkdirTemp("", "vrun-")
	if err != nil {
		die(2, "%v", err)
	}
	bin = filepath.Join(scratch, "props.test")
	build := exec.Command("go", "test", "-c", "-vet=off", "-o", bin, "./props")
	build.Dir = filepath.Join(root, "harness")
	build.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	if out, err := build.CombinedOutput(); err != nil {
		die(2, "build failed: %v\n%s", err, out)
	}
	if os.Args[1] == "replay" {
		doReplay(os.Args[2])
		return
	}
	doCheck(os.Args[1], os.Args[2])
}

type childOut struct {
	code    int
	results []result
	stderr  string
	current []byte
	timeout bool
}

// shards is the number of processes that share the search of checks bound by parsing speed.
var shards = map[string]int{"C18": 4, "C19": 4, "C20": 4, "C21": 4, "C22": 4, "C23": 4, "C32": 4}

// search runs the search of a check, divided over its number of processes.
func search(id string, limit time.Duration, tier string) []childOut {
	n := max(shards[id], 1)
	out := make([]childOut, n)
	var wg sync.WaitGroup
	for i := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if n == 1 {
				out[i] = child(id, "", limit, tier)
				return
			}
			out[i] = child(id, "", limit, tier, "GOMAXPROCS=2", "GOGC=300", fmt.Sprintf("VK_SHARD=%d", i), fmt.Sprintf("VK_SHARDS=%d", n))
		}()
	}
	wg.Wait()
	return out
}

func child(id, replayFile string, limit time.Duration, tier string, env ...string) childOut {
	dir, err := os.MkdirTemp(scratch, "child-")
	if err != nil {
		die(2, "%v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^Test"+id+"$", "-test.timeout", "0", "-test.count", "1")
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Env = append(os.Environ(),
		"VK_OUT="+dir, "VK_REPLAY="+replayFile, "VERIF_TIER="+tier, "TZ=UTC", "GOTRACEBACK=all",
		"VK_KNOWN="+filepath.Join(root, "known-findings.txt"))
	cmd.Env = append(cmd.Env, env...)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err = cmd.Run()
	if cmd.Process != nil {
		// Programs a failed case leaves behind
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	o := childOut{stderr: buf.String(), timeout: ctx.Err() != nil}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			o.code = ee.ExitCode()
		} else {
			o.code = -2
		}
	}
	files, _ := filepath.Glob(filepath.Join(dir, "result-*.json"))
	sort.Strings(files)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		var r result
		if json.Unmarshal(b, &r) == nil {
			o.results = append(o.results, r)
		}
	}
	o.current, _ = os.ReadFile(filepath.Join(dir, "current.json"))
	return o
}

// crash describes how a child died, or "" if it ended normally (exit 0, or 1 with results).
func crash(o childOut) string {
	if o.code == 0 {
		return ""
	}
	if o.code == 44 {
		return "hang"
	}
	if o.code == 1 && len(o.results) > 0 && !strings.Contains(o.stderr, "\npanic: ") && !strings.HasPrefix(o.stderr, "panic: ") {
		return ""
	}
	if i := strings.Index(o.stderr, "panic: "); i >= 0 && o.code == 2 {
		return firstLines(o.stderr[i:])
	}
	if i := strings.Index(o.stderr, "fatal error: "); i >= 0 && o.code == 2 {
		return firstLines(o.stderr[i:])
	}
	return fmt.Sprintf("ended abnormally (code %d)", o.code)
}

func firstLines(s string) string {
	if i := strings.Index(s, "\n"); i > 0 {
		return s[:i]
	}
	return s
}

// inLibrary tells whether the failing goroutine's stack runs through the library.
func inLibrary(stderr string) bool {
	i := strings.Index(stderr, "panic: ")
	if j := strings.Index(stderr, "fatal error: "); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		return false
	}
	s := stderr[i:]
	g := strings.Index(s, "\ngoroutine ")
	if g < 0 {
		return strings.Contains(s, "goapi/sttp")
	}
	s = s[g+1:]
	if e := strings.Index(s, "\n\ngoroutine "); e > 0 {
		s = s[:e]
	}
	return strings.Contains(s, "goapi/sttp")
}

func saveReplay(r replay) string {
	os.MkdirAll(filepath.Join(root, "replays"), 0o755)
	b, _ := json.MarshalIndent(r, "", " ")
	h := sha256.Sum256(r.Case)
	f := filepath.Join(root, "replays", fmt.Sprintf("%s-%s-%x.json", r.Property, r.Check, h[:4]))
	if err := os.WriteFile(f, b, 0o644); err != nil {
		die(2, "%v", err)
	}
	return f
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func doReplay(file string) {
	abs, _ := filepath.Abs(file)
	b, err := os.ReadFile(abs)
	if err != nil {
		die(2, "%v", err)
	}
	var r replay
	if err := json.Unmarshal(b, &r); err != nil {
		die(2, "%v", err)
	}
	o := child(r.Property, abs, 10*time.Minute, "quick")
	if c := crash(o); c != "" {
		fmt.Printf("crash: %s\n%s\nVIOLATION property=%s replay=%s\n", c, tail(o.stderr, 4000), r.Property, abs)
		cleanup()
		os.Exit(1)
	}
	for _, x := range o.results {
		if x.HarnessErr != "" {
			die(2, "%s", x.HarnessErr)
		}
		for _, k := range x.Known {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Property, k)
		}
		if x.Violation != "" {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", x.Violation, r.Property, abs)
			cleanup()
			os.Exit(1)
		}
	}
	fmt.Println("replay: held")
	cleanup()
}

func doCheck(id, tier string) {
	start := time.Now()
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	limit := 12 * time.Minute
	if tier == "thorough" {
		limit = 40 * time.Minute
	}
	var violations []replay
	var msgs []string
	var all []result
	failed := -1
	outs := search(id, limit, tier)
	for i, o := range outs {
		all = append(all, o.results...)
		if o.code != 0 {
			failed = i
		}
		c := crash(o)
		if c == "" || len(violations) > 0 {
			continue
		}
		var cur replay
		if o.timeout || len(o.current) == 0 || json.Unmarshal(o.current, &cur) != nil {
			die(3, "search ended abnormally: %s\n%s", c, tail(o.stderr, 6000))
		}
		cur.Message = c
		f := filepath.Join(scratch, "confirm.json")
		b, _ := json.Marshal(cur)
		os.WriteFile(f, b, 0o644)
		confirmed := 0
		var last childOut
		tries := 3
		if c == "hang" {
			tries = 1
		}
		for i := 0; i < tries; i++ {
			last = child(id, f, 6*time.Minute, tier)
			if cc := crash(last); cc != "" && !last.timeout && !strings.HasPrefix(cc, "ended abnormally") {
				confirmed++
				break
			}
			for _, x := range last.results {
				if x.Violation != "" {
					confirmed++
				}
			}
			if confirmed > 0 {
				break
			}
		}
		if confirmed == 0 && !(strings.Contains(c, "panic: ") && inLibrary(o.stderr)) {
			die(3, "search ended abnormally and the case does not reproduce it: %s\n%s", c, tail(o.stderr, 6000))
		}
		if confirmed > 0 && c != "hang" {
			cur.Case = shrinkCrash(id, cur, tier)
		}
		violations = append(violations, cur)
		msgs = append(msgs, c+"\n"+excerpt(o.stderr))
	}

	harnessErr := ""
	total, distinct, skipped := 0, 0, 0
	labels := map[string]int{}
	var rules, samples []string
	knownSet := map[string]bool{}
	byCheck := map[string]int{}
	for _, r := range all {
		total += r.Evals
		distinct += r.Distinct
		skipped += r.Skipped
		for k, v := range r.Labels {
			labels[r.Check+"/"+k] += v
		}
		if rule := r.Check + ": " + r.Rule; !slices.Contains(rules, rule) {
			rules = append(rules, rule)
			for i, s := range r.Samples {
				if i < 2 {
					samples = append(samples, r.Check+" "+s)
				}
			}
		}
		for _, k := range r.Known {
			knownSet[k] = true
		}
		if r.HarnessErr != "" {
			harnessErr = r.HarnessErr
		}
		if r.Violation != "" {
			b, err := os.ReadFile(r.Replay)
			var rp replay
			if err != nil || json.Unmarshal(b, &rp) != nil {
				die(2, "cannot read replay %s", r.Replay)
			}
			msg := r.Check + ": " + r.Violation
			if at, ok := byCheck[r.Check]; ok {
				// several processes found it: keep the smaller case
				if len(rp.Case) < len(violations[at].Case) {
					violations[at], msgs[at] = rp, msg
				}
				continue
			}
			byCheck[r.Check] = len(violations)
			violations = append(violations, rp)
			msgs = append(msgs, msg)
		}
	}
	if len(violations) == 0 {
		if harnessErr != "" {
			die(3, "%s", harnessErr)
		}
		if failed >= 0 {
			die(3, "search failed without a result (code %d)\n%s", outs[failed].code, tail(outs[failed].stderr, 6000))
		}
		if total == 0 {
			die(3, "no case was executed for %s\n%s", id, tail(outs[0].stderr, 2000))
		}
	}

	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": total, "distinct_nontrivial": distinct, "rule": strings.Join(rules, " | "),
			"samples": samples, "classes": labels, "skipped_by_time_budget": skipped,
		},
		"wall_s": time.Since(start).Seconds(), "violations": len(violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		die(2, "%v", err)
	}
	var ks []string
	for k := range knownSet {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if len(violations) > 0 {
		for i, v := range violations {
			f := saveReplay(v)
			fmt.Printf("%s\n", tail(msgs[i], 4000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		}
		cleanup()
		os.Exit(1)
	}
	fmt.Printf("%s %s held: %d cases, %d distinct non-trivial, %.1fs\n", id, tier, total, distinct, time.Since(start).Seconds())
	cleanup()
}

func excerpt(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.Contains(l, "/repo/sttp/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 14 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// shrinkCrash minimises a case that kills the process by removing array elements while the crash persists.
func shrinkCrash(id string, r replay, tier string) json.RawMessage {
	best := r.Case
	stop := time.Now().Add(25 * time.Second)
	crashes := func(raw []byte) bool {
		f := filepath.Join(scratch, "shrink.json")
		b, _ := json.Marshal(replay{Property: r.Property, Check: r.Check, Case: raw})
		os.WriteFile(f, b, 0o644)
		o := child(id, f, time.Minute, tier)
		c := crash(o)
		return c != "" && !o.timeout && !strings.HasPrefix(c, "ended abnormally") && c != "hang"
	}
	for again := true; again && time.Now().Before(stop); {
		again = false
		var v any
		dec := json.NewDecoder(bytes.NewReader(best))
		dec.UseNumber()
		if dec.Decode(&v) != nil {
			return best
		}
		n := countArrays(v)
		for i := 0; i < n && time.Now().Before(stop); i++ {
			for size := arrayLen(v, i); size >= 1 && time.Now().Before(stop); size /= 2 {
				for at := 0; at+size <= arrayLen(v, i) && time.Now().Before(stop); {
					w := without(v, i, at, size)
					raw, _ := json.Marshal(w)
					if crashes(raw) {
						best, v, again = raw, w, true
					} else {
						at += size
					}
				}
			}
		}
	}
	return best
}

func countArrays(v any) int {
	n := 0
	walk(v, func(*[]any) { n++ })
	return n
}

func arrayLen(v any, k int) int {
	n, l := 0, 0
	walk(v, func(a *[]any) {
		if n == k {
			l = len(*a)
		}
		n++
	})
	return l
}

func walk(v any, f func(*[]any)) {
	switch x := v.(type) {
	case []any:
		f(&x)
		for _, e := range x {
			walk(e, f)
		}
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			walk(x[k], f)
		}
	}
}

func without(v any, k, at, size int) any {
	n := 0
	var rec func(any) any
	rec = func(v any) any {
		switch x := v.(type) {
		case []any:
			mine := n == k
			n++
			var out []any
			for i, e := range x {
				r := rec(e)
				if mine && i >= at && i < at+size {
					continue
				}
				out = append(out, r)
			}
			if out == nil {
				out = []any{}
			}
			return out
		case map[string]any:
			var ks []string
			for kk := range x {
				ks = append(ks, kk)
			}
			sort.Strings(ks)
			out := map[string]any{}
			for _, kk := range ks {
				out[kk] = rec(x[kk])
			}
			return out
		}
		return v
	}
	return rec(v)
}
