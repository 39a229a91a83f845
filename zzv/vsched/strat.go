package vsched

import "math/rand"

// ---------- depth-first search with a preemption bound ----------

type choice struct {
	n    int // number of options
	k    int // chosen
	free bool
}

// DFS enumerates all schedules with at most Bound preemptions (switching away from a task that
// could continue, or advancing the clock while something could run).
type DFS struct {
	Bound  int
	stack  []choice
	pos    int
	used   int
	More   bool
	Runs   int
	MaxLen int // choices beyond this depth are not branched
}

func NewDFS(bound int) *DFS { return &DFS{Bound: bound, More: true, MaxLen: 4000} }

func (d *DFS) Begin() { d.pos, d.used = 0, 0; d.Runs++ }

func (d *DFS) next(n int, free bool) int {
	k := 0
	if d.pos < len(d.stack) {
		c := d.stack[d.pos]
		k = c.k
		if k >= n { // nondeterminism outside our control: stay safe
			k = n - 1
		}
	} else {
		d.stack = append(d.stack, choice{n: n, k: 0, free: free})
	}
	if !d.stack[d.pos].free && k > 0 {
		d.used++
	}
	d.pos++
	return k
}

func (d *DFS) Sched(n, cur int, ids []int, timer bool) int {
	free := cur < 0
	if d.pos >= len(d.stack) {
		lim := n
		if free && timer {
			lim = n // advancing the clock is one more free option when nothing is running
		}
		if !free && d.used >= d.Bound {
			lim = 1
		}
		if d.pos >= d.MaxLen {
			lim = 1
		}
		return d.next(lim, free)
	}
	return d.next(n, free)
}

func (d *DFS) Data(n int) int { return d.next(n, true) }

// End prepares the next schedule; More is false when the space is exhausted.
func (d *DFS) End() {
	d.stack = d.stack[:min(d.pos, len(d.stack))]
	for len(d.stack) > 0 {
		i := len(d.stack) - 1
		if d.stack[i].k+1 < d.stack[i].n {
			d.stack[i].k++
			return
		}
		d.stack = d.stack[:i]
	}
	d.More = false
}

// ---------- PCT: random priorities with d change points ----------

type PCT struct {
	Rng   *rand.Rand
	D     int
	Len   int // expected length
	prio  map[int]int
	low   int
	at    map[int]bool
	step  int
	tprob float64
}

func (p *PCT) Begin() {
	p.prio = map[int]int{}
	p.low = 0
	p.step = 0
	p.at = map[int]bool{}
	if p.Len < 10 {
		p.Len = 10
	}
	for i := 0; i < p.D; i++ {
		p.at[p.Rng.Intn(p.Len)] = true
	}
	p.tprob = 0
	if p.Rng.Intn(3) == 0 {
		p.tprob = 0.5 / float64(p.Len)
	}
}

func (p *PCT) pr(id int) int {
	v, ok := p.prio[id]
	if !ok {
		v = 1000 + p.Rng.Intn(1000000)
		p.prio[id] = v
	}
	return v
}

func (p *PCT) Sched(n, cur int, ids []int, timer bool) int {
	p.step++
	if timer && p.tprob > 0 && p.Rng.Float64() < p.tprob {
		return n - 1
	}
	best, bp := 0, -1<<60
	for i, id := range ids {
		if v := p.pr(id); v > bp {
			best, bp = i, v
		}
	}
	if p.at[p.step] {
		p.low--
		p.prio[ids[best]] = p.low
		best, bp = 0, -1<<60
		for i, id := range ids {
			if v := p.pr(id); v > bp {
				best, bp = i, v
			}
		}
	}
	return best
}
func (p *PCT) Data(n int) int { return p.Rng.Intn(n) }
func (p *PCT) End() {
	if p.step > 10 {
		p.Len = (p.Len*3 + p.step) / 4
	}
}

// ---------- random walk with stickiness ----------

type Random struct {
	Rng   *rand.Rand
	stick float64
	tp    float64
}

func (p *Random) Begin() {
	p.stick = []float64{0, 0.5, 0.8, 0.9, 0.95}[p.Rng.Intn(5)]
	p.tp = []float64{0, 0, 0.01, 0.1}[p.Rng.Intn(4)]
}
func (p *Random) Sched(n, cur int, ids []int, timer bool) int {
	if timer && p.Rng.Float64() < p.tp {
		return n - 1
	}
	if cur == 0 && p.Rng.Float64() < p.stick {
		return 0
	}
	return p.Rng.Intn(len(ids))
}
func (p *Random) Data(n int) int { return p.Rng.Intn(n) }
func (p *Random) End()           {}
