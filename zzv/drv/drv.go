// Package drv binds a component of the code to its TLA+ specification. It replays transitions
// computed by TLC on the real code (mode replay), runs random operation sequences and records
// them (mode walk), and, in the instrumented build, explores schedules of concurrent scenarios
// and records their histories (mode explore).
package drv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/donnie4w/gofer/zzv/vsched"
)

type Component struct {
	New   func(cfg map[string]string) any
	Apply func(obj any, op []string) []string
	Close func(obj any)
	// Kind groups operations for the parallel runs (optional: the first word).
	Kind func(op []string) string
	// Focus gives the sequences for one kind of operation (optional); Kinds the kinds.
	Kinds func(cfg map[string]string) []string
	Focus func(rng *rand.Rand, cfg map[string]string, kind string) [][]string
	// Gen draws a random operation for mode walk (optional).
	Gen func(rng *rand.Rand, cfg map[string]string) []string
	// Raw may handle an operation of an explored scenario itself, logging its own events.
	Raw func(obj any, t int, op []string) bool
	// Custom runs one custom scenario phase list (mode explore) when the scenario has a kind.
	Custom map[string]func(sc *Scenario) []func()
	// After is called when an execution of a custom scenario is over; it may append events.
	After map[string]func(sc *Scenario, res *vsched.Result)
}

type Scenario struct {
	Name    string            `json:"name"`
	Kind    string            `json:"kind"`
	Cfg     map[string]string `json:"cfg"`
	Threads [][][]string      `json:"threads"`
	Pre     [][]string        `json:"pre"`
	Post    [][]string        `json:"post"`
	MaxPB   int               `json:"maxpb"`
	Budget  float64           `json:"budget"` // seconds
	MaxHist int               `json:"maxhist"`
}

var started atomic.Int64 // unix nanos at which the running operation began (0: none)
var current atomic.Value // description of the running operation

func watchdog(limit time.Duration) {
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			s := started.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > limit {
				c := ""
				if f, ok := current.Load().(func() string); ok {
					c = f()
				}
				fmt.Printf("{\"hang\":%q}\n", c)
				os.Exit(7)
			}
		}
	}()
}

// LastPanic is the message of the most recent panic caught by Safe.
var LastPanic string

// Safe applies op, turning a panic into the result ["panic"].
func (c *Component) Safe(obj any, op []string) (r []string) {
	ok := false
	defer func() {
		if ok {
			return
		}
		if e := recover(); e != nil {
			LastPanic = fmt.Sprint(e)
			if os.Getenv("DRV_STACK") != "" {
				debug.PrintStack()
			}
			r = []string{"panic"}
		}
	}()
	r = c.Apply(obj, op)
	ok = true
	if r == nil {
		r = []string{}
	}
	return
}

func (c *Component) timed(obj any, op []string, desc func() string) []string {
	current.Store(desc) // (evaluated by the watchdog only)
	started.Store(time.Now().UnixNano())
	r := c.Safe(obj, op)
	started.Store(0)
	return r
}

func fatal(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...); os.Exit(3) }

func readJSON(p string, v any) {
	b, err := os.ReadFile(p)
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, v); err != nil {
		fatal("%s: %v", p, err)
	}
}

// Main runs the driver: prog MODE IN.json OUT.ndjson
func Main(c *Component) {
	if len(os.Args) != 4 {
		fatal("usage: MODE IN OUT")
	}
	f, err := os.Create(os.Args[3])
	if err != nil {
		fatal("%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	debug.SetMaxStack(1 << 28)
	switch os.Args[1] {
	case "replay":
		watchdog(30 * time.Second)
		c.replay(os.Args[2], w)
	case "walk":
		watchdog(30 * time.Second)
		c.walk(os.Args[2], w)
	case "explore":
		c.explore(os.Args[2], w)
	case "once":
		c.once(os.Args[2], w)
	default:
		fatal("mode")
	}
	w.Flush()
	f.Close()
}

// ---------- replay ----------

type edge struct {
	op  []string
	alt []alt
}
type alt struct {
	r []string
	t int
}
type replayIn struct {
	Init  []int               `json:"init"`
	Trans []json.RawMessage   `json:"trans"` // [f, op, [[r, t], ...]]
	N     int                 `json:"n"`
	Cfgs  []map[string]string `json:"cfgs"`
	Seed  int64               `json:"seed"`
	// Walks random walks of length WalkLen per configuration, within Budget seconds in total.
	Walks   int     `json:"walks"`
	WalkLen int     `json:"walklen"`
	Budget  float64 `json:"budget"`
}

type failure struct {
	Cfg  map[string]string `json:"cfg"`
	Ops  [][]string        `json:"ops"`
	Res  [][]string        `json:"res"`
	Want [][]string        `json:"want"`
	Msg  string            `json:"msg"`
}

type report struct {
	Edges    int       `json:"edges"`
	Covered  int       `json:"covered"`
	Steps    int       `json:"steps"`
	Walks    int       `json:"walks"`
	Failures []failure `json:"failures"`
	Sample   []string  `json:"sample"`
	Hang     string    `json:"hang,omitempty"`
}

func eqs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *Component) replay(in string, w *bufio.Writer) {
	var x replayIn
	readJSON(in, &x)
	g := make([][]edge, x.N)
	rep := report{}
	for _, raw := range x.Trans {
		var parts []json.RawMessage
		json.Unmarshal(raw, &parts)
		var f int
		var op []string
		var alts [][]json.RawMessage
		json.Unmarshal(parts[0], &f)
		json.Unmarshal(parts[1], &op)
		json.Unmarshal(parts[2], &alts)
		e := edge{op: op}
		for _, a := range alts {
			var r []string
			var t int
			json.Unmarshal(a[0], &r)
			json.Unmarshal(a[1], &t)
			e.alt = append(e.alt, alt{r, t})
		}
		g[f] = append(g[f], e)
		rep.Edges++
	}
	rng := rand.New(rand.NewSource(x.Seed))
	final := time.Now().Add(time.Duration(x.Budget * float64(time.Second)))
	coveredAny := map[[2]int]bool{}
	taken := map[[3]int]bool{}
	// nearest edge not yet covered, by breadth-first search over states
	find := func(from int, cov map[[2]int]bool) [][2]int {
		type node struct {
			s    int
			prev int
			e    int
		}
		q := []node{{from, -1, -1}}
		seen := map[int]bool{from: true}
		for i := 0; i < len(q); i++ {
			s := q[i].s
			off := 0
			if n := len(g[s]); n > 0 {
				off = rng.Intn(n)
			}
			for k := range g[s] {
				ei := (k + off) % len(g[s])
				if !cov[[2]int{s, ei}] {
					path := [][2]int{{s, ei}}
					for j := i; q[j].prev >= 0; j = q[j].prev {
						path = append([][2]int{{q[q[j].prev].s, q[j].e}}, path...)
					}
					return path
				}
			}
			for ei, e := range g[s] {
				for _, a := range e.alt {
					// only results the code has been seen to give
					if !seen[a.t] && taken[[3]int{s, ei, a.t}] {
						seen[a.t] = true
						q = append(q, node{a.t, i, ei})
					}
				}
			}
		}
		return nil
	}
	for ci, cfg := range x.Cfgs {
		cov := map[[2]int]bool{}
		// an equal share of the time for every configuration
		deadline := time.Now().Add(time.Until(final) / time.Duration(len(x.Cfgs)-ci))
		// one walk: choose the next operation with pick until it returns nil
		walk := func(pick func(s int, n int) int) bool {
			obj := c.New(cfg)
			if c.Close != nil {
				defer c.Close(obj)
			}
			cur := map[int]bool{}
			for _, i := range x.Init {
				cur[i] = true
			}
			var ops, ress [][]string
			rep.Walks++
			for n := 0; ; n++ {
				// with several possible states, use a fixed one to choose the operation
				s := -1
				for k := range cur {
					if s < 0 || k < s {
						s = k
					}
				}
				ei := pick(s, n)
				if ei < 0 {
					return true
				}
				op := g[s][ei].op
				r := c.timed(obj, op, func() string {
					b, _ := json.Marshal(map[string]any{"cfg": cfg, "ops": append(append([][]string{}, ops...), op)})
					return string(b)
				})
				rep.Steps++
				ops = append(ops, op)
				ress = append(ress, r)
				next := map[int]bool{}
				var want [][]string
				for k := range cur {
					for kei, e := range g[k] {
						if !eqs(e.op, op) {
							continue
						}
						for _, a := range e.alt {
							if eqs(a.r, r) {
								next[a.t] = true
								cov[[2]int{k, kei}] = true
								coveredAny[[2]int{k, kei}] = true
								taken[[3]int{k, kei, a.t}] = true
							}
							want = append(want, a.r)
						}
					}
				}
				if len(next) == 0 {
					if len(rep.Failures) < 5 {
						msg := ""
						if len(r) == 1 && r[0] == "panic" {
							msg = LastPanic
						}
						rep.Failures = append(rep.Failures, failure{cfg, ops, ress, want, msg})
					}
					return false
				}
				cur = next
			}
		}
		// 1. cover every transition
		var plan [][2]int
		for time.Now().Before(deadline) && len(rep.Failures) < 5 {
			progress := false
			before := len(cov)
			steps, last, lastN := 0, 0, before
			plan = nil
			ok := walk(func(s, n int) int {
				steps++
				if len(cov) > lastN {
					last, lastN = steps, len(cov)
				}
				if steps > 2000 || steps-last > 300 {
					return -1
				}
				if len(plan) == 0 || plan[0][0] != s {
					plan = find(s, cov)
					if plan == nil {
						return -1
					}
				}
				e := plan[0][1]
				plan = plan[1:]
				return e
			})
			progress = len(cov) > before
			if !ok {
				// exclude the failing edge from the plan by random continuation
				break
			}
			if !progress {
				break
			}
		}
		// 2. random walks
		for k := 0; k < x.Walks && time.Now().Before(deadline) && len(rep.Failures) == 0; k++ {
			l := x.WalkLen
			var bias []float64
			_ = bias
			var tr []string
			walk(func(s, n int) int {
				if n >= l || len(g[s]) == 0 {
					return -1
				}
				e := rng.Intn(len(g[s]))
				if len(rep.Sample) == 0 && n < 12 {
					tr = append(tr, strings.Join(g[s][e].op, " "))
				}
				return e
			})
			if len(rep.Sample) == 0 {
				rep.Sample = tr
			}
		}
		_ = ci
	}
	rep.Covered = len(coveredAny)
	b, _ := json.Marshal(rep)
	w.Write(b)
	w.WriteByte('\n')
}

// ---------- walk: random sequential runs recorded for validation against the spec ----------

type walkIn struct {
	Cfgs []map[string]string `json:"cfgs"`
	Runs int                 `json:"runs"` // per configuration
	Len  int                 `json:"len"`
	Seed int64               `json:"seed"`
	// Script is run as it is instead of random operations.
	Script [][]string `json:"script"`
	Ops    [][]string `json:"ops"` // drawn uniformly when the component has no Gen
	// Par goroutines run sequences at the same time for Secs seconds per configuration, each on an
	// object of its own; every distinct outcome is recorded once, up to MaxHist.
	Par     int     `json:"par"`
	Secs    float64 `json:"secs"`
	MaxHist int     `json:"maxhist"`
}

type histOut struct {
	Name  string            `json:"name"`
	Cfg   map[string]string `json:"cfg"`
	Ev    []vsched.Ev       `json:"ev"`
	Sched []int             `json:"sched,omitempty"`
	Runs  int               `json:"runs,omitempty"`
}

func (c *Component) walk(in string, w *bufio.Writer) {
	var x walkIn
	readJSON(in, &x)
	rng := rand.New(rand.NewSource(x.Seed))
	for ci, cfg := range x.Cfgs {
		if x.Par > 0 {
			c.parallel(&x, ci, rng, w)
			continue
		}
		for k := 0; k < x.Runs; k++ {
			obj := c.New(cfg)
			h := histOut{Name: fmt.Sprintf("walk%d.%d", ci, k), Cfg: cfg}
			for n := 0; n < x.Len; n++ {
				var op []string
				if len(x.Script) > 0 {
					op = x.Script[n]
				} else if c.Gen != nil {
					op = c.Gen(rng, cfg)
				} else {
					op = x.Ops[rng.Intn(len(x.Ops))]
				}
				r := c.timed(obj, op, func() string { b, _ := json.Marshal(map[string]any{"cfg": cfg, "op": op}); return string(b) })
				h.Ev = append(h.Ev, vsched.Ev{E: "inv", T: 1, O: op, R: []string{}}, vsched.Ev{E: "ret", T: 1, O: op, R: r})
			}
			if c.Close != nil {
				c.Close(obj)
			}
			b, _ := json.Marshal(h)
			w.Write(b)
			w.WriteByte('\n')
		}
	}
}

// parallel runs sequences of drawn operations: first mixed ones, then, for every kind of operation in
// turn, sequences that consist mostly of it.
func (c *Component) parallel(x *walkIn, ci int, rng *rand.Rand, w *bufio.Writer) {
	cfg := x.Cfgs[ci]
	draw := func() []string {
		if c.Gen != nil {
			return c.Gen(rng, cfg)
		}
		return x.Ops[rng.Intn(len(x.Ops))]
	}
	kind := func(op []string) string {
		if c.Kind != nil {
			return c.Kind(op)
		}
		return op[0]
	}
	byKind, kinds := map[string][][]string{}, []string{}
	scripts := make([][][]string, x.Runs)
	for k := range scripts {
		for n := 0; n < x.Len; n++ {
			scripts[k] = append(scripts[k], draw())
		}
	}
	if c.Focus != nil {
		kinds = c.Kinds(cfg)
	}
	for n := 0; n < 1000 && c.Focus == nil; n++ {
		op := draw()
		k := kind(op)
		if len(byKind[k]) == 0 {
			kinds = append(kinds, k)
		}
		byKind[k] = append(byKind[k], op)
	}
	c.together(x, ci, "mixed", scripts, x.Secs, x.MaxHist, w)
	sort.Strings(kinds)
	for _, k := range kinds {
		foc := make([][][]string, 3)
		for i := range foc {
			if c.Focus != nil {
				foc[i] = c.Focus(rng, cfg, k)
			}
			for n := 0; n < 12 && c.Focus == nil; n++ {
				if ops := byKind[k]; rng.Intn(5) > 0 {
					foc[i] = append(foc[i], ops[rng.Intn(len(ops))])
				} else {
					foc[i] = append(foc[i], draw())
				}
			}
		}
		c.together(x, ci, k, foc, x.Secs/float64(len(kinds)), 6, w)
	}
}

func (c *Component) together(x *walkIn, ci int, name string, scripts [][][]string, secs float64, maxHist int, w *bufio.Writer) {
	cfg := x.Cfgs[ci]
	var mu sync.Mutex
	seen := map[string]bool{}
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	current.Store(func() string { b, _ := json.Marshal(map[string]any{"cfg": cfg, "op": "in parallel"}); return string(b) })
	started.Store(end.UnixNano())
	var over atomic.Bool
	time.AfterFunc(time.Until(end), func() { over.Store(true) })
	var wg sync.WaitGroup
	for g := 0; g < x.Par; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			last := make([][][]string, len(scripts)) // this goroutine's results of each sequence
			for k := g; ; k++ {
				i := k % len(scripts)
				sc := scripts[i]
				res := make([][]string, len(sc))
				obj := c.New(cfg)
				for n, op := range sc {
					res[n] = c.Safe(obj, op)
				}
				if c.Close != nil {
					c.Close(obj)
				}
				same := last[i] != nil
				for n := 0; same && n < len(sc); n++ {
					same = eqs(res[n], last[i][n])
				}
				if !same {
					last[i] = res
					key, _ := json.Marshal(res)
					id := fmt.Sprint(i) + string(key)
					mu.Lock()
					if !seen[id] && len(seen) < maxHist {
						seen[id] = true
						h := histOut{Name: fmt.Sprintf("parallel%d.%s.%d", ci, name, k), Cfg: cfg}
						for n, op := range sc {
							h.Ev = append(h.Ev, vsched.Ev{E: "inv", T: 1, O: op, R: []string{}}, vsched.Ev{E: "ret", T: 1, O: op, R: res[n]})
						}
						b, _ := json.Marshal(h)
						w.Write(b)
						w.WriteByte('\n')
					}
					mu.Unlock()
				}
				// (every sequence is run at least once)
				if over.Load() && k >= len(scripts) {
					return
				}
			}
		}()
	}
	wg.Wait()
	started.Store(0)
}

// ---------- explore ----------

type exploreIn struct {
	Scenarios []*Scenario `json:"scenarios"`
	Seed      int64       `json:"seed"`
}

type recorder struct {
	vsched.Strategy
	log []int
}

func (r *recorder) Begin() { r.log = r.log[:0]; r.Strategy.Begin() }
func (r *recorder) Sched(n, cur int, ids []int, tm bool) int {
	k := r.Strategy.Sched(n, cur, ids, tm)
	r.log = append(r.log, k)
	return k
}
func (r *recorder) Data(n int) int {
	k := r.Strategy.Data(n)
	r.log = append(r.log, k)
	return k
}

type fixed struct {
	s []int
	i int
}

func (f *fixed) Begin() { f.i = 0 }
func (f *fixed) get(n int) int {
	k := 0
	if f.i < len(f.s) {
		k = f.s[f.i]
	}
	f.i++
	if k >= n {
		k = n - 1
	}
	return k
}
func (f *fixed) Sched(n, cur int, ids []int, tm bool) int { return f.get(n) }
func (f *fixed) Data(n int) int                           { return f.get(n) }
func (f *fixed) End()                                     {}

func (c *Component) runScenario(sc *Scenario, st vsched.Strategy) vsched.Result {
	vsched.NoEarly = sc.Cfg["punctual"] == "1"
	vsched.MaxSteps = 6000
	if n, _ := strconv.Atoi(sc.Cfg["maxsteps"]); n > 0 {
		vsched.MaxSteps = n
	}
	if sc.Kind != "" {
		fn := c.Custom[sc.Kind]
		if fn == nil {
			fatal("no custom scenario %s", sc.Kind)
		}
		res := vsched.Execute(st, fn(sc)...)
		if a := c.After[sc.Kind]; a != nil {
			a(sc, &res)
		}
		return res
	}
	var obj any
	do := func(t int, ops [][]string) {
		for _, op := range ops {
			vsched.Y()
			if c.Raw != nil && c.Raw(obj, t, op) {
				continue
			}
			vsched.Log("inv", t, op, []string{})
			r := c.Safe(obj, op)
			vsched.Log("ret", t, op, r)
		}
	}
	phases := []func(){func() {
		obj = c.New(sc.Cfg)
		do(1, sc.Pre)
	}, func() {
		for i, ops := range sc.Threads {
			i, ops := i, ops
			vsched.Client(fmt.Sprint(i+1), func() { do(i+1, ops) })
		}
	}}
	if len(sc.Post) > 0 {
		phases = append(phases, func() { do(len(sc.Threads)+1, sc.Post) })
	}
	res := vsched.Execute(st, phases...)
	if c.Close != nil && obj != nil {
		c.Close(obj)
	}
	return res
}

func (c *Component) explore(in string, w *bufio.Writer) {
	var x exploreIn
	readJSON(in, &x)
	for si, sc := range x.Scenarios {
		start := time.Now()
		budget := time.Duration(sc.Budget * float64(time.Second))
		if sc.MaxHist == 0 {
			sc.MaxHist = 3000
		}
		seen := map[string]bool{}
		if sc.Cfg["prewarm"] != "" { // lets New cache what it has to search for
			c.New(sc.Cfg)
		}
		runs, maxSteps, bounds := 0, 0, -1
		one := func(st vsched.Strategy) {
			rec := &recorder{Strategy: st}
			res := c.runScenario(sc, rec)
			runs++
			if res.Steps > maxSteps {
				maxSteps = res.Steps
			}
			var kb strings.Builder
			for _, e := range res.Events {
				kb.WriteString(e.E)
				fmt.Fprint(&kb, e.T, e.O, e.R)
				if sc.Kind != "" {
					fmt.Fprint(&kb, e.C)
				}
				kb.WriteByte('|')
			}
			k := kb.String()
			if seen[k] || len(seen) >= sc.MaxHist {
				return
			}
			seen[k] = true
			h := histOut{Name: sc.Name, Cfg: sc.Cfg, Ev: res.Events, Sched: append([]int{}, rec.log...)}
			b, _ := json.Marshal(h)
			w.Write(b)
			w.WriteByte('\n')
		}
		maxpb := sc.MaxPB
		if maxpb == 0 {
			maxpb = 2
		}
		for pb := 0; pb <= maxpb; pb++ {
			d := vsched.NewDFS(pb)
			lim := start.Add(budget * 7 / 10)
			for d.More && time.Now().Before(lim) && len(seen) < sc.MaxHist {
				one(d)
			}
			if !d.More {
				bounds = pb
			} else {
				break
			}
		}
		rng := rand.New(rand.NewSource(x.Seed*1000003 + int64(si)))
		for i := 0; time.Since(start) < budget && len(seen) < sc.MaxHist; i++ {
			switch i % 3 {
			case 0:
				one(&vsched.Random{Rng: rng})
			default:
				one(&vsched.PCT{Rng: rng, D: 1 + rng.Intn(4), Len: maxSteps/2 + 10})
			}
		}
		b, _ := json.Marshal(map[string]any{"summary": sc.Name, "runs": runs, "distinct": len(seen), "pb": bounds, "maxsteps": maxSteps})
		w.Write(b)
		w.WriteByte('\n')
	}
}

// once re-executes one recorded schedule.
func (c *Component) once(in string, w *bufio.Writer) {
	var x struct {
		Scenario *Scenario `json:"scenario"`
		Sched    []int     `json:"sched"`
	}
	readJSON(in, &x)
	res := c.runScenario(x.Scenario, &fixed{s: x.Sched})
	b, _ := json.Marshal(histOut{Name: x.Scenario.Name, Cfg: x.Scenario.Cfg, Ev: res.Events})
	w.Write(b)
	w.WriteByte('\n')
}
