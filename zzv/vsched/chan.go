package vsched

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
)

// Channel operations. Buffered channels are used directly through non-blocking operations
// (only one task runs at a time, so a try succeeds exactly when the operation is enabled);
// rendezvous on unbuffered channels go through a table of pending senders.

type pendSend struct {
	v     any
	taken bool
	group *bool // set once one send of the same select has been taken
}

func chid(ch any) uintptr { return reflect.ValueOf(ch).Pointer() }

func (r *Run) isClosed(id uintptr) bool { _, ok := r.closedCh[id]; return ok }

func (r *Run) addSend(id uintptr, p *pendSend) {
	if r.sends == nil {
		r.sends = map[uintptr][]*pendSend{}
	}
	r.sends[id] = append(r.sends[id], p)
}

func (r *Run) firstSend(id uintptr) *pendSend {
	for _, p := range r.sends[id] {
		if p.group == nil || !*p.group {
			return p
		}
	}
	return nil
}

func (r *Run) delSend(id uintptr, p *pendSend) {
	q := r.sends[id]
	for i, x := range q {
		if x == p {
			r.sends[id] = append(append([]*pendSend{}, q[:i]...), q[i+1:]...)
			return
		}
	}
}

// Send replaces ch <- v: Send(ch)(v).
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		r := cur
		if r == nil {
			select {
			case ch <- v:
			default:
				panic("vsched: send would block outside a run")
			}
			return
		}
		if r.aborting {
			runtime.Goexit()
		}
		if ch == nil {
			r.point(func() bool { return false })
		}
		id := chid(ch)
		if cap(ch) > 0 {
			r.point(func() bool { return len(ch) < cap(ch) || r.isClosed(id) })
			select {
			case ch <- v: // panics when closed
			default:
				panic("vsched: send not ready")
			}
			return
		}
		r.point(nil)
		if r.isClosed(id) {
			panic("send on closed channel")
		}
		p := &pendSend{v: v}
		r.addSend(id, p)
		r.point(func() bool { return p.taken || r.isClosed(id) })
		if !p.taken {
			r.delSend(id, p)
			panic("send on closed channel")
		}
	}
}

func readyRecv[T any](r *Run, ch <-chan T, id uintptr) bool {
	return len(ch) > 0 || r.isClosed(id) || r.firstSend(id) != nil || nativeClosed(ch)
}

// nativeClosed detects channels closed by code outside the scheduler (contexts).
// It is only used for channels that never carry values natively while empty.
func nativeClosed[T any](ch <-chan T) bool {
	if cap(ch) > 0 {
		return false
	}
	select {
	case _, ok := <-ch:
		if ok {
			panic("vsched: native unbuffered send")
		}
		return true
	default:
		return false
	}
}

func doRecv[T any](r *Run, ch <-chan T, id uintptr) (v T, ok bool) {
	if len(ch) == 0 && !r.isClosed(id) {
		if p := r.firstSend(id); p != nil {
			r.delSend(id, p)
			p.taken = true
			if p.group != nil {
				*p.group = true
			}
			if p.v != nil {
				v = p.v.(T)
			}
			return v, true
		}
	}
	select {
	case v, ok = <-ch:
		return v, ok
	default:
		if r.isClosed(id) {
			return v, false
		}
		panic("vsched: receive not ready")
	}
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	r := cur
	if r == nil {
		select {
		case v, ok = <-ch:
			return
		default:
			panic("vsched: receive would block outside a run")
		}
	}
	if r.aborting {
		runtime.Goexit()
	}
	if ch == nil {
		r.point(func() bool { return false })
	}
	id := chid(ch)
	r.point(func() bool { return readyRecv(r, ch, id) })
	return doRecv(r, ch, id)
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close replaces close(ch).
func Close[T any](ch chan<- T) {
	r := cur
	if r == nil {
		close(ch)
		return
	}
	if r.aborting {
		runtime.Goexit()
	}
	r.point(nil)
	close(ch)
	if r.closedCh == nil {
		r.closedCh = map[uintptr]any{}
	}
	r.closedCh[chid(ch)] = ch // keeps the channel alive, so that its address is not reused
}

// Case is one case of a select statement.
type Case interface {
	ready(r *Run) bool
	do(r *Run)
	begin(r *Run, g *bool)
	end(r *Run)
	finished() bool
}

type RecvC[T any] struct {
	ch <-chan T
	id uintptr
	V  T
	OK bool
}

func CaseRecv[T any](ch <-chan T) *RecvC[T] {
	c := &RecvC[T]{ch: ch}
	if ch != nil {
		c.id = chid(ch)
	}
	return c
}
func (c *RecvC[T]) ready(r *Run) bool     { return c.ch != nil && readyRecv(r, c.ch, c.id) }
func (c *RecvC[T]) do(r *Run)             { c.V, c.OK = doRecv(r, c.ch, c.id) }
func (c *RecvC[T]) begin(r *Run, g *bool) {}
func (c *RecvC[T]) end(r *Run)            {}
func (c *RecvC[T]) finished() bool        { return false }

type SendC[T any] struct {
	ch chan<- T
	id uintptr
	v  T
	p  *pendSend
}

func CaseSend[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] {
		c := &SendC[T]{ch: ch, v: v}
		if ch != nil {
			c.id = chid(ch)
		}
		return c
	}
}
func (c *SendC[T]) ready(r *Run) bool {
	if c.ch == nil {
		return false
	}
	if r.isClosed(c.id) {
		return true
	}
	if cap(c.ch) > 0 {
		return len(c.ch) < cap(c.ch)
	}
	return c.p != nil && c.p.taken
}
func (c *SendC[T]) do(r *Run) {
	if c.p != nil && c.p.taken {
		return
	}
	select {
	case c.ch <- c.v:
	default:
		if r.isClosed(c.id) {
			panic("send on closed channel")
		}
		panic("vsched: select send not ready")
	}
}
func (c *SendC[T]) begin(r *Run, g *bool) {
	if c.ch != nil && cap(c.ch) == 0 {
		c.p = &pendSend{v: c.v, group: g}
		r.addSend(c.id, c.p)
	}
}
func (c *SendC[T]) end(r *Run) {
	if c.p != nil && !c.p.taken {
		r.delSend(c.id, c.p)
	}
}
func (c *SendC[T]) finished() bool { return c.p != nil && c.p.taken }

// Select replaces a select statement; it returns the index of the chosen case, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	r := cur
	if r == nil {
		panic("vsched: select outside a run")
	}
	if r.aborting {
		runtime.Goexit()
	}
	r.point(nil)
	choose := func() int {
		var rd []int
		for i, c := range cases {
			if c.finished() {
				return i
			}
			if c.ready(r) {
				rd = append(rd, i)
			}
		}
		if len(rd) == 0 {
			return -1
		}
		return rd[Choose(len(rd))]
	}
	if k := choose(); k >= 0 {
		cases[k].do(r)
		return k
	}
	if hasDefault {
		Spin()
		return -1
	}
	g := new(bool)
	for _, c := range cases {
		c.begin(r, g)
	}
	r.point(func() bool {
		for _, c := range cases {
			if c.ready(r) || c.finished() {
				return true
			}
		}
		return false
	})
	k := choose()
	for _, c := range cases {
		c.end(r)
	}
	cases[k].do(r)
	return k
}

// ---------- maps: emulate the runtime's concurrent map access detection ----------

func MapWBegin(m any) uintptr {
	r := cur
	if r == nil {
		return 0
	}
	id := reflect.ValueOf(m).Pointer()
	if id == 0 {
		return 0
	}
	if r.mapw == nil {
		r.mapw = map[uintptr]int{}
	}
	r.point(nil)
	if r.mapw[id] > 0 {
		Fatal("concurrent map writes")
	}
	r.mapw[id]++
	r.point(nil)
	return id
}

func MapWEnd(id uintptr) {
	r := cur
	if r == nil || id == 0 {
		return
	}
	r.mapw[id]--
}

func MapR(m any) {
	r := cur
	if r == nil || r.mapw == nil {
		return
	}
	if r.mapw[reflect.ValueOf(m).Pointer()] > 0 {
		Fatal("concurrent map read and map write")
	}
}

// MapSet replaces m[k] = v.
func MapSet[M ~map[K]V, K comparable, V any](m M) func(K, V) {
	return func(k K, v V) {
		id := MapWBegin(m)
		m[k] = v
		MapWEnd(id)
	}
}

// MapDel replaces delete(m, k).
func MapDel[M ~map[K]V, K comparable, V any](m M) func(K) {
	return func(k K) {
		id := MapWBegin(m)
		delete(m, k)
		MapWEnd(id)
	}
}

// MapClear replaces clear(m).
func MapClear[M ~map[K]V, K comparable, V any](m M) {
	id := MapWBegin(m)
	clear(m)
	MapWEnd(id)
}

// RangeMap iterates over a map in a deterministic order.
func RangeMap[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		MapR(m)
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			MapR(m)
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}
