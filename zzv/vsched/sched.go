// Package vsched is a cooperative, deterministic scheduler for instrumented code.
// Exactly one managed goroutine ("task") runs at a time; every visible operation of the
// instrumented code is a scheduling point at which a Strategy picks who runs next.
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
)

type task struct {
	id     int
	client bool // a client task of the scenario (its termination is observed)
	name   string
	wake   chan struct{}
	pred   func() bool // nil: runnable; else blocked until true
	done   bool
	spin   int // failed try-operations since the last successful progress
	lowTil int // deprioritised (polls) until this step
	fn     func()
}

type timer struct {
	when int64
	seq  int
	fire func()
	dead bool
}

// Strategy decides at every choice point. cur is the index (in 0..n-1) of the option that
// continues the running task without a context switch, or -1. The last `timers` (0 or 1)
// options are "let the clock advance to the next timer".
type Strategy interface {
	Begin()
	Sched(n int, cur int, ids []int, timer bool) int
	Data(n int) int
	End()
}

// Ev is one logged event of an execution.
type Ev struct {
	E string   `json:"e"`
	T int      `json:"t"`
	O []string `json:"o"`
	R []string `json:"r"`
	C int64    `json:"c"`
}

type Run struct {
	tasks    []*task
	cur      *task
	steps    int
	burst    int
	clock    int64
	timers   []*timer
	tseq     int
	strat    Strategy
	aborting bool
	finished chan struct{}
	Events   []Ev
	crashed  string
	fair     bool // overflow mode
	fairLeft int
	livelock bool
	maxSteps int
	rng      uint64
	closedCh map[uintptr]any
	sends    map[uintptr][]*pendSend
	mapw     map[uintptr]int
	ids      []int
	opts     []*task
}

var cur *Run

// Active reports whether a run is in progress.
func Active() bool { return cur != nil }

const maxStepsDefault = 6000
const burstLimit = 400

// NoEarly keeps the clock from advancing while something can run (timers that are due may fire). MaxSteps bounds an execution
// before the fair scheduler takes over. Both apply to the executions started after they are set.
var NoEarly bool
var MaxSteps = maxStepsDefault

// ---------- scheduling points ----------

// Y is a plain scheduling point.
func Y() {
	if r := cur; r != nil {
		r.point(nil)
	}
}

// T is a scheduling point inside a boolean expression.
func T() bool { Y(); return true }

// Block waits until pred holds (scheduling point included). pred must be side-effect free.
func Block(pred func() bool) {
	r := cur
	if r == nil {
		if !pred() {
			panic("vsched: blocking operation would block outside a run")
		}
		return
	}
	r.point(pred)
}

// Spin marks a failed try-operation: the task is polling.
func Spin() {
	if r := cur; r != nil && r.cur != nil {
		r.cur.spin++
		if r.cur.spin >= 2 {
			r.cur.lowTil = r.steps + 8
		}
	}
}

// Progress clears the polling mark.
func Progress() {
	if r := cur; r != nil && r.cur != nil {
		r.cur.spin = 0
	}
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	Spin()
	Spin()
	Y()
}

func (r *Run) enabled() (opts []*task, curIdx int) {
	opts = r.opts[:0]
	curIdx = -1
	c := r.cur
	anyNormal := false
	for _, t := range r.tasks {
		if t.done {
			continue
		}
		if t.pred != nil && !t.pred() {
			continue
		}
		if t.lowTil <= r.steps {
			anyNormal = true
		}
		opts = append(opts, t)
	}
	r.opts = opts
	if anyNormal {
		k := opts[:0]
		for _, t := range opts {
			if t.lowTil <= r.steps {
				k = append(k, t)
			}
		}
		opts = k
	} else {
		for _, t := range opts {
			t.lowTil = 0
			t.spin = 0
		}
	}
	// current first
	for i, t := range opts {
		if t == c {
			copy(opts[1:i+1], opts[:i])
			opts[0] = c
			curIdx = 0
			break
		}
	}
	return opts, curIdx
}

func (r *Run) nextTimer() *timer {
	var b *timer
	for _, t := range r.timers {
		if t.dead {
			continue
		}
		if b == nil || t.when < b.when || (t.when == b.when && t.seq < b.seq) {
			b = t
		}
	}
	return b
}

func (r *Run) fireNext() {
	t := r.nextTimer()
	if t.when > r.clock {
		r.clock = t.when
	}
	t.dead = true
	k := r.timers[:0]
	for _, x := range r.timers {
		if !x.dead {
			k = append(k, x)
		}
	}
	r.timers = k
	t.fire()
}

// pick returns the task to run next, or nil when nothing can ever run again.
func (r *Run) pick() *task {
	for {
		if r.crashed != "" {
			return nil
		}
		opts, ci := r.enabled()
		nt := r.nextTimer()
		if len(opts) == 0 {
			if nt == nil {
				return nil
			}
			r.fireNext()
			continue
		}
		if r.fair {
			r.fairLeft--
			if r.fairLeft <= 0 {
				r.livelock = true
				return nil
			}
			r.rng = r.rng*6364136223846793005 + 1442695040888963407
			n := len(opts)
			// The clock must advance as well, and not only when nothing else can run.
			if nt != nil && (!NoEarly || nt.when <= r.clock) && (r.rng>>40)%16 == 0 {
				r.fireNext()
				continue
			}
			return opts[int((r.rng>>33)%uint64(n))]
		}
		if ci == 0 && len(opts) > 1 && r.burst > burstLimit {
			// forced switch: the running task loops without letting others run
			r.burst = 0
			return opts[1]
		}
		n := len(opts)
		hasT := nt != nil && (!NoEarly || nt.when <= r.clock)
		if hasT {
			n++
		}
		if n == 1 {
			return opts[0]
		}
		r.ids = r.ids[:0]
		for _, t := range opts {
			r.ids = append(r.ids, t.id)
		}
		k := r.strat.Sched(n, ci, r.ids, hasT)
		if k == len(opts) {
			r.fireNext()
			continue
		}
		return opts[k]
	}
}

func (r *Run) point(pred func() bool) {
	if r.aborting {
		runtime.Goexit()
	}
	t := r.cur
	r.steps++
	r.burst++
	if r.steps > r.maxSteps && !r.fair {
		r.fair = true
		r.fairLeft = 40000
	}
	t.pred = pred
	if pred != nil {
		t.spin = 0
	}
	next := r.pick()
	if next == t {
		t.pred = nil
		return
	}
	r.burst = 0
	if next == nil {
		close(r.finished)
	} else {
		r.cur = next
		next.wake <- struct{}{}
	}
	<-t.wake
	if r.aborting {
		runtime.Goexit()
	}
	t.pred = nil
}

func (r *Run) exitTask(t *task) {
	t.done = true
	if r.aborting {
		return
	}
	r.burst = 0
	next := r.pick()
	if next == nil {
		close(r.finished)
		return
	}
	r.cur = next
	next.wake <- struct{}{}
}

func (r *Run) spawn(name string, client bool, fn func()) *task {
	t := &task{id: len(r.tasks), client: client, name: name, wake: make(chan struct{}), fn: fn}
	r.tasks = append(r.tasks, t)
	go func() {
		<-t.wake
		defer func() {
			if !r.aborting {
				if e := recover(); e != nil {
					r.crash(fmt.Sprintf("panic: %v", e))
					if os.Getenv("VSCHED_STACK") != "" {
						debug.PrintStack()
					}
				}
			} else {
				recover()
			}
			if r.aborting {
				t.done = true
				r.finished <- struct{}{}
				return
			}
			r.exitTask(t)
		}()
		if r.aborting {
			return
		}
		fn()
	}()
	return t
}

func (r *Run) crash(msg string) {
	if r.crashed == "" {
		r.crashed = msg
	}
}

// Fatal records an unrecoverable runtime error (as Go's runtime would raise) and ends the run.
func Fatal(msg string) {
	r := cur
	if r == nil {
		panic("fatal: " + msg)
	}
	if r.aborting {
		runtime.Goexit()
	}
	r.crash("fatal: " + msg)
	runtime.Goexit()
}

// Go starts a managed goroutine (replaces the go statement).
func Go(fn func()) {
	r := cur
	if r == nil {
		go fn()
		return
	}
	if r.aborting {
		runtime.Goexit()
	}
	r.spawn("lib", false, fn)
	r.point(nil)
}

// Spawn starts a managed goroutine from a timer callback (no scheduling point).
func Spawn(fn func()) { cur.spawn("lib", false, fn) }

// Client starts a client task of the scenario, identified by id in events.
func Client(name string, fn func()) { cur.spawn(name, true, fn) }

// Now is the virtual clock in nanoseconds.
func Now() int64 {
	if cur == nil {
		return 0
	}
	return cur.clock
}

// Me is the name of the running task.
func Me() string {
	if r := cur; r != nil && r.cur != nil {
		return r.cur.name
	}
	return ""
}

// Log appends an event.
func Log(e string, t int, o []string, res []string) {
	r := cur
	if r == nil || r.aborting {
		return
	}
	r.Events = append(r.Events, Ev{e, t, o, res, r.clock})
}

// AddTimer registers fire to be called when the virtual clock reaches now+d.
func AddTimer(d time.Duration, fire func()) (stop func() bool) {
	r := cur
	if r == nil {
		panic("vsched: timer outside a run")
	}
	if r.aborting {
		runtime.Goexit()
	}
	if d < 0 {
		d = 0
	}
	r.tseq++
	t := &timer{when: r.clock + int64(d), seq: r.tseq, fire: fire}
	r.timers = append(r.timers, t)
	return func() bool {
		if t.dead {
			return false
		}
		t.dead = true
		k := r.timers[:0]
		for _, x := range r.timers {
			if x != t {
				k = append(k, x)
			}
		}
		r.timers = k
		return true
	}
}

// Choose is a data choice among n alternatives.
func Choose(n int) int {
	r := cur
	if r == nil || n <= 1 {
		return 0
	}
	if r.aborting {
		runtime.Goexit()
	}
	if r.fair {
		r.rng = r.rng*6364136223846793005 + 1442695040888963407
		return int((r.rng >> 33) % uint64(n))
	}
	return r.strat.Data(n)
}

// Result of one execution.
type Result struct {
	Events   []Ev
	Crash    string
	Livelock bool
	Stuck    []string // client tasks that never finished
	Steps    int
	Clock    int64
}

// Execute runs the phases one after another under strat: each phase's function runs as a
// client task; the next phase starts when nothing can run any more.
func Execute(strat Strategy, phases ...func()) (res Result) {
	r := &Run{strat: strat, maxSteps: MaxSteps, rng: 88172645463325252}
	if cur != nil {
		panic("nested run")
	}
	cur = r
	strat.Begin()
	for i, ph := range phases {
		r.finished = make(chan struct{})
		t := r.spawn(fmt.Sprintf("phase%d", i), true, ph)
		r.cur = t
		r.burst = 0
		t.wake <- struct{}{}
		<-r.finished
		var stuck []string
		for _, t := range r.tasks {
			if t.client && !t.done {
				stuck = append(stuck, t.name)
			}
		}
		sort.Strings(stuck)
		res.Stuck = stuck
		if r.crashed != "" {
			r.Events = append(r.Events, Ev{"crash", 0, []string{}, []string{r.crashed}, r.clock})
			break
		}
		if r.livelock {
			r.Events = append(r.Events, Ev{"livelock", 0, []string{}, stuck, r.clock})
			break
		}
		if stuck == nil {
			stuck = []string{}
		}
		r.Events = append(r.Events, Ev{"quiet", 0, []string{}, stuck, r.clock})
	}
	strat.End()
	// tear down
	r.aborting = true
	r.finished = make(chan struct{})
	for i := 0; i < len(r.tasks); i++ {
		t := r.tasks[i]
		if t.done {
			continue
		}
		r.cur = t
		t.wake <- struct{}{}
		<-r.finished
	}
	cur = nil
	res.Events, res.Crash, res.Livelock, res.Steps, res.Clock = r.Events, r.crashed, r.livelock, r.steps, r.clock
	return
}
