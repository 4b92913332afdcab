package props

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/sttp/goapi/sttp/thread"
	"pgregory.net/rapid"
	"verif/harness/vk"
)

type c29Op struct {
	Op   string // try, join, running, spin, startjoin
	Spin int
}

type c29Case struct {
	Workers [][]c29Op
	Work    int  // how long the function runs
	First   bool // started before the workers begin
}

func spin(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

func execC29(c c29Case, o *vk.Obs) error {
	var started, finished, active, wins atomic.Int64
	var overlap atomic.Bool
	th := thread.NewThread(func() {
		started.Add(1)
		if active.Add(1) > 1 {
			overlap.Store(true)
		}
		spin(c.Work)
		active.Add(-1)
		finished.Add(1)
	})
	if th.IsRunning() {
		return fmt.Errorf("running before start")
	}
	if !within(o.Wait(), th.Join) {
		return vk.Stuck("joining a thread that was never started blocks")
	}
	if c.First {
		th.Start()
		wins.Add(1)
	}
	var mu sync.Mutex
	var fail error
	report := func(format string, a ...any) {
		mu.Lock()
		if fail == nil {
			fail = fmt.Errorf(format, a...)
		}
		mu.Unlock()
	}
	var ready, done sync.WaitGroup
	var begin atomic.Bool
	for _, ops := range c.Workers {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			for !begin.Load() {
				runtime.Gosched()
			}
			for _, op := range ops {
				spin(op.Spin)
				switch op.Op {
				case "try":
					if th.TryStart() {
						wins.Add(1)
					}
				case "startjoin":
					// A run that was started before a join has completed after it
					if th.TryStart() {
						n := wins.Add(1)
						th.Join()
						if f := finished.Load(); f < n {
							report("join returned after %d completed runs, %d had been started", f, n)
						}
					}
				case "join":
					n := wins.Load()
					th.Join()
					// Runs never overlap, so all runs started before the join have completed
					if f := finished.Load(); f < n {
						report("join returned after %d completed runs, %d had been started", f, n)
					}
				case "running":
					if !th.IsRunning() && started.Load() > finished.Load() {
						// The function may have been started in between; only a lasting contradiction counts
						a, b := started.Load(), finished.Load()
						if !th.IsRunning() && started.Load() == a && finished.Load() == b && a > b {
							report("not running while the function executes")
						}
					}
				}
			}
		}()
	}
	ready.Wait()
	begin.Store(true)
	if !within(o.Wait(), done.Wait) {
		return vk.Stuck("a worker did not finish")
	}
	if !within(o.Wait(), th.Join) {
		return vk.Stuck("join did not return")
	}
	if fail != nil {
		return fail
	}
	if s, f, w := started.Load(), finished.Load(), wins.Load(); s != w || f != w {
		return fmt.Errorf("%d successful starts, %d runs begun, %d completed after join", w, s, f)
	}
	if overlap.Load() {
		return fmt.Errorf("two runs at the same time")
	}
	if th.IsRunning() {
		return fmt.Errorf("running after join")
	}
	// Start again
	n := finished.Load()
	if !within(o.Wait(), func() { th.Start(); th.Join() }) {
		return vk.Stuck("second start and join did not return")
	}
	if finished.Load() != n+1 {
		return fmt.Errorf("%d runs completed after a further start and join, want %d", finished.Load(), n+1)
	}
	if wins.Load() > 1 && len(c.Workers) > 1 {
		o.NonTrivial()
	}
	return nil
}

// c29Gate holds the function open, so the states are known.
type c29Gate struct {
	Joins  int
	Tries  int
	Again  bool
	Inside string // called by the function itself: try, running
}

func execC29Gate(c c29Gate, o *vk.Obs) error {
	var err error
	if !within(3*o.Wait(), func() { err = c.run(o) }) {
		return vk.Stuck("a call did not return")
	}
	return err
}

func (c c29Gate) run(o *vk.Obs) error {
	gate := make(chan struct{})
	entered := make(chan struct{}, 4)
	var inside atomic.Value
	var th *thread.Thread
	th = thread.NewThread(func() {
		entered <- struct{}{}
		switch c.Inside {
		case "try":
			inside.Store(th.TryStart())
		case "running":
			inside.Store(!th.IsRunning())
		}
		<-gate
	})
	for round := 0; round < 2; round++ {
		if round == 1 && !c.Again {
			break
		}
		if round == 0 {
			th.Start()
		} else if !th.TryStart() {
			return fmt.Errorf("a finished thread cannot be started again")
		}
		if !th.IsRunning() {
			return fmt.Errorf("not running after start")
		}
		for i := 0; i < c.Tries; i++ {
			if th.TryStart() {
				return fmt.Errorf("a running thread was started again")
			}
		}
		var joined atomic.Int64
		var wg sync.WaitGroup
		for i := 0; i < c.Joins; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); th.Join(); joined.Add(1) }()
		}
		if !within(o.Wait(), func() { <-entered }) {
			return vk.Stuck("the function did not run")
		}
		for i := 0; i < 50; i++ {
			runtime.Gosched()
		}
		if c.Joins > 0 {
			time.Sleep(100 * time.Microsecond)
		}
		if joined.Load() > 0 {
			return fmt.Errorf("join returned while the function runs")
		}
		if !th.IsRunning() {
			return fmt.Errorf("not running while the function runs")
		}
		gate <- struct{}{}
		if !within(o.Wait(), wg.Wait) || !within(o.Wait(), th.Join) {
			return vk.Stuck("join did not return after the function completed")
		}
		if th.IsRunning() {
			return fmt.Errorf("running after join")
		}
		if v, _ := inside.Load().(bool); v {
			return fmt.Errorf("the function itself saw %s wrong", c.Inside)
		}
	}
	if len(entered) > 0 {
		return fmt.Errorf("the function ran more often than started")
	}
	if c.Joins > 1 {
		o.NonTrivial()
	}
	return nil
}

func TestC29(t *testing.T) {
	vk.Run(t, vk.Spec[c29Case]{
		ID: "C29", Name: "race", Rule: "start, try-start, join and is-running calls from several goroutines; non-trivial: two or more runs with several workers",
		Quick: 25000, Deep: 800000,
		Gen: func(t *rapid.T) c29Case {
			c := c29Case{Work: rapid.SampledFrom([]int{0, 0, 1, 5, 30}).Draw(t, "work"), First: rapid.Bool().Draw(t, "first")}
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "workers"); i < n; i++ {
				var ops []c29Op
				for k, m := 0, rapid.IntRange(1, 6).Draw(t, "ops"); k < m; k++ {
					ops = append(ops, c29Op{Op: rapid.SampledFrom([]string{"try", "try", "join", "join", "running", "startjoin"}).Draw(t, "op"), Spin: rapid.SampledFrom([]int{0, 0, 0, 1, 3, 20}).Draw(t, "spin")})
				}
				c.Workers = append(c.Workers, ops)
			}
			return c
		},
		Exec: execC29,
	})
	vk.Run(t, vk.Spec[c29Gate]{
		ID: "C29", Name: "gate", Rule: "the function is held open while it is joined and started; non-trivial: two or more joins",
		Quick: 1500, Deep: 40000,
		Gen: func(t *rapid.T) c29Gate {
			return c29Gate{Joins: rapid.IntRange(0, 5).Draw(t, "joins"), Tries: rapid.IntRange(0, 3).Draw(t, "tries"), Again: rapid.Bool().Draw(t, "again"), Inside: rapid.SampledFrom([]string{"", "try", "running"}).Draw(t, "inside")}
		},
		Exec: execC29Gate,
	})
}
