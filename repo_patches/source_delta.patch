From beec737d863314488ef9312873b83fd7066cc3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 01/30] fix: Map and MapL Put report a replaced nil interface
 value as present

---
 hashmap/map.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index 1ba9b7a..7b8a48a 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -28,8 +28,11 @@ func NewMapL[K any, V any]() *MapL[K, V] {
 func (t *MapL[K, V]) Put(key K, value V) (prev V, b bool) {
 	if v, ok := t.m.Swap(key, value); !ok {
 		atomic.AddInt64(&t.len, 1)
-	} else if v != nil {
-		prev, b = v.(V), true
+	} else {
+		if v != nil {
+			prev = v.(V)
+		}
+		b = true
 	}
 	return
 }
@@ -85,8 +88,11 @@ func NewMap[K any, V any]() *Map[K, V] {
 }
 
 func (t *Map[K, V]) Put(key K, value V) (prev V, b bool) {
-	if v, ok := t.m.Swap(key, value); ok && v != nil {
-		prev, b = v.(V), true
+	if v, ok := t.m.Swap(key, value); ok {
+		if v != nil {
+			prev = v.(V)
+		}
+		b = true
 	}
 	return
 }
-- 
2.43.0


From c33c6c8ebf5f96d7dbee98b6e0e38480299af435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 02/30] fix: LimitMap holds no more entries than its capacity

---
 hashmap/limitmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/limitmap.go b/hashmap/limitmap.go
index c7e4eaf..4688fde 100644
--- a/hashmap/limitmap.go
+++ b/hashmap/limitmap.go
@@ -53,7 +53,7 @@ func (mc *LimitMap[K, V]) Put(key K, value V) (prev V, b bool) {
 		mc.order.MoveToFront(elem)
 		return
 	}
-	if len(mc.cache) > mc.capacity {
+	if len(mc.cache) >= mc.capacity {
 		oldest := mc.order.Back()
 		if oldest != nil {
 			mc.order.Remove(oldest)
-- 
2.43.0


From 95fc458e294273fbe2d43d050f2e789c40953146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 03/30] fix: LimitHashMap with fewer capacity than segments
 holds no more than its capacity

---
 hashmap/limithashmap.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index c3aeb06..f08b87a 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -58,6 +58,13 @@ func NewLimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint
 //
 //	*LimitHashMap[K, V] - A new instance of a capacity-limited LimitHashMap divided into segments.
 func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string, V any](capacity, segmentNumber int) *LimitHashMap[K, V] {
+	// A segment holds at least one entry: more segments than capacity would exceed the capacity.
+	if segmentNumber > capacity {
+		segmentNumber = capacity
+	}
+	if segmentNumber < 1 {
+		segmentNumber = 1
+	}
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-- 
2.43.0


From dc1f775b63ff7dfcf665b82a79be57ddeefc1192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 04/30] fix: LimitHashMap keeps nil interface values

---
 hashmap/limithashmap.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index f08b87a..c618751 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -158,8 +158,9 @@ func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 	hashedKey := c.hashFunc(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		if v := ele.Value.(*entry).value; v != nil {
-			return v.(V), true
+			r = v.(V)
 		}
+		b = true
 	}
 	return
 }
@@ -171,7 +172,10 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 
 	hashedKey := c.hashFunc(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
-		prev, b = ele.Value.(*entry).value.(V), true
+		if v := ele.Value.(*entry).value; v != nil {
+			prev = v.(V)
+		}
+		b = true
 		ele.Value.(*entry).value = value
 		return
 	}
-- 
2.43.0


From 001b81b74fe6c212428db52040f3e8688475daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 05/30] fix: LimitHashMap does not confuse string keys whose
 hashes collide

---
 hashmap/limithashmap.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index c618751..4b1733a 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -17,7 +17,7 @@ import (
 const numSegments = 1 << 6
 
 type segment struct {
-	cache map[uint64]*list.Element
+	cache map[cacheKey]*list.Element
 	order *list.List
 	mu    sync.RWMutex
 }
@@ -30,8 +30,14 @@ type LimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 |
 	segmentNumber int
 }
 
+// cacheKey identifies a key within its segment: the hash alone is not unique for strings.
+type cacheKey struct {
+	hash uint64
+	str  string
+}
+
 type entry struct {
-	hashedKey uint64
+	hashedKey cacheKey
 	key       any
 	value     any
 }
@@ -68,7 +74,7 @@ func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | ui
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-			cache: make(map[uint64]*list.Element),
+			cache: make(map[cacheKey]*list.Element),
 			order: list.New(),
 		}
 	}
@@ -150,12 +156,17 @@ func (c *LimitHashMap[K, V]) getSegment(key K) *segment {
 	return c.segments[uint(hashedKey%uint64(c.segmentNumber))]
 }
 
+func (c *LimitHashMap[K, V]) cacheKey(key K) cacheKey {
+	s, _ := any(key).(string)
+	return cacheKey{hash: c.hashFunc(key), str: s}
+}
+
 func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 	segment := c.getSegment(key)
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.cacheKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		if v := ele.Value.(*entry).value; v != nil {
 			r = v.(V)
@@ -170,7 +181,7 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.cacheKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		if v := ele.Value.(*entry).value; v != nil {
 			prev = v.(V)
@@ -198,7 +209,7 @@ func (c *LimitHashMap[K, V]) Del(key K) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.cacheKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		segment.order.Remove(ele)
 		delete(segment.cache, hashedKey)
@@ -210,7 +221,7 @@ func (c *LimitHashMap[K, V]) Contains(key K) bool {
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.cacheKey(key)
 	_, ok := segment.cache[hashedKey]
 	return ok
 }
@@ -218,7 +229,7 @@ func (c *LimitHashMap[K, V]) Contains(key K) bool {
 func (c *LimitHashMap[K, V]) Clear() {
 	for _, segment := range c.segments {
 		segment.mu.Lock()
-		segment.cache = make(map[uint64]*list.Element)
+		segment.cache = make(map[cacheKey]*list.Element)
 		segment.order.Init()
 		segment.mu.Unlock()
 	}
-- 
2.43.0


From 1abb29f60ecf5c29c93e8325abadd3d01226b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 06/30] fix: LinkedHashMap.LoadOrStore keeps the existing value
 and returns the stored one

---
 hashmap/linkedhashmap.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index 88f20ae..3c089c1 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -54,27 +54,24 @@ func (t *LinkedHashMap[K, V]) Put(k K, v V) {
 }
 
 func (t *LinkedHashMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
-	kv := &entrykv[K, V]{k, v}
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	elem := t.list.PushFront(kv)
-	if preelem, ok := t.m.Swap(k, elem); !ok {
-		t.count++
-		if t.count > t.limit {
-			if oldest := t.list.Back(); oldest != nil {
-				t.list.Remove(oldest)
-				t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
-			}
-			t.count--
-		}
-	} else if preelem != nil {
-		t.list.Remove(preelem.(*list.Element))
-		if v := preelem.(*list.Element).Value; v != nil {
-			actual = v.(*entrykv[K, V]).value
-			loaded = true
+	if preelem, ok := t.m.Load(k); ok {
+		elem := preelem.(*list.Element)
+		t.list.MoveToFront(elem)
+		return elem.Value.(*entrykv[K, V]).value, true
+	}
+	elem := t.list.PushFront(&entrykv[K, V]{k, v})
+	t.m.Store(k, elem)
+	t.count++
+	if t.count > t.limit {
+		if oldest := t.list.Back(); oldest != nil {
+			t.list.Remove(oldest)
+			t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
 		}
+		t.count--
 	}
-	return
+	return v, false
 }
 
 func (t *LinkedHashMap[K, V]) Get(k K) (_r V, b bool) {
-- 
2.43.0


From 9239cad5cbfbeceaa1adf9951bd7f5dacaa58afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 07/30] fix: Consistenthash lookups on an emptied ring report
 no node

---
 hashmap/consistenthash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index d8a9c7f..6237dbb 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -67,7 +67,7 @@ func (t *Consistenthash) Add(keys ...int64) {
 func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash(int64ToBytes(value))
@@ -82,7 +82,7 @@ func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
@@ -97,7 +97,7 @@ func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
-- 
2.43.0


From 740b7ba897778d5ceb72f1702186ae6bbf0c5012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 08/30] fix: Consistenthash.GetNextNodeStr continues past the
 end of the ring

---
 hashmap/consistenthash.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index 6237dbb..132df38 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -108,9 +108,8 @@ func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64,
 	n1, ok := t.m.Get(t.keys[idx])
 	m := map[int64]int8{}
 	nodes = make([]int64, 0)
-	for idx < len(t.keys)-1 {
-		idx++
-		if node, ok := t.m.Get(t.keys[idx]); ok && node != n1 {
+	for i := 1; i < len(t.keys); i++ {
+		if node, ok := t.m.Get(t.keys[(idx+i)%len(t.keys)]); ok && node != n1 {
 			if _, ok := m[node]; !ok {
 				m[node] = 0
 				nodes = append(nodes, node)
-- 
2.43.0


From 1225696686aa29afc0cec720f2a0ba6c39656a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 09/30] fix: GoPool starts a function submitted while the
 dispatcher is finishing

---
 pool/gopool/gopool.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 8539431..7f49af8 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -122,12 +122,18 @@ func (g *GoPool) TurnOff(off bool) {
 }
 
 func (g *GoPool) funcn() {
-	defer func() { recover() }()
-	defer g.mux.Unlock()
-	g._funcn()
+	for {
+		g._funcn()
+		g.mux.Unlock()
+		// A function submitted since _funcn looked found the lock taken: it is ours to start.
+		if atomic.LoadInt64(&g.tnum) <= 0 || !g.mux.TryLock() {
+			return
+		}
+	}
 }
 
 func (g *GoPool) _funcn() {
+	defer func() { recover() }()
 	for f := range g.funcnPool {
 		if g.close {
 			go f()
@@ -148,10 +154,6 @@ func (g *GoPool) _funcn() {
 			break
 		}
 	}
-	if g.tnum > 0 {
-		g._funcn()
-	}
-	return
 }
 
 func (g *GoPool) put(f *funcn) (ok bool) {
-- 
2.43.0


From f3fd9fb2fc4a5eed7200131dfa172c46b5d8b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 10/30] fix: GoPool never exceeds maxlimit, and works without
 core workers

---
 pool/gopool/gopool.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 7f49af8..3a0254e 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -55,7 +55,7 @@ type GoPool struct {
 	minlimit   int64
 	maxlimit   int64
 	id         int64
-	count      int64
+	slots      chan struct{} // one element per function being executed by a worker
 	mux        *sync.Mutex
 	funcnPool  chan func()
 	close      bool
@@ -76,6 +76,7 @@ func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool
 	if maxlimit < minlimit {
 		p.maxlimit = minlimit
 	}
+	p.slots = make(chan struct{}, p.maxlimit)
 	p.funcnPool = make(chan func(), FuncLimit)
 	p.mux = &sync.Mutex{}
 	p.ctx, p.cancel = context.WithCancel(context.Background())
@@ -138,15 +139,12 @@ func (g *GoPool) _funcn() {
 		if g.close {
 			go f()
 		} else {
+			g.slots <- struct{}{}
 			var t *funcn
-			if count := atomic.AddInt64(&g.count, 1); count > g.minlimit && count <= g.maxlimit {
+			select {
+			case t = <-g.pool:
+			default:
 				t = &funcn{task: make(chan func(), 1), id: atomic.AddInt64(&g.id, 1), pool: g}
-			} else if g.id > g.minlimit {
-				t = <-g.pool
-			} else if id := atomic.AddInt64(&g.id, 1); id <= g.minlimit {
-				t = &funcn{task: make(chan func(), 1), id: id, pool: g}
-			} else {
-				t = <-g.pool
 			}
 			t.add(f)
 		}
@@ -157,7 +155,7 @@ func (g *GoPool) _funcn() {
 }
 
 func (g *GoPool) put(f *funcn) (ok bool) {
-	atomic.AddInt64(&g.count, -1)
+	defer func() { <-g.slots }()
 	if f.id <= g.minlimit && atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) {
 		g.pool <- f
 		ok = true
-- 
2.43.0


From 5afb9dc5c4d485d89a79043ac1b9553d984fb3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:37 +0000
Subject: [PATCH 11/30] fix: GoPool.Close loses no function and does not crash
 running workers

---
 pool/gopool/gopool.go | 71 ++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 3a0254e..e0f9321 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -11,7 +11,6 @@ import (
 	"context"
 	"sync"
 	"sync/atomic"
-	"time"
 )
 
 type funcn struct {
@@ -36,18 +35,12 @@ func (fc *funcn) run() {
 			}
 		}
 	}()
-	for {
-		select {
-		case f := <-fc.task:
-			f()
-		case <-fc.pool.ctx.Done():
-			goto END
-		}
+	for f := range fc.task {
+		f()
 		if !fc.pool.put(fc) {
 			break
 		}
 	}
-END:
 }
 
 type GoPool struct {
@@ -102,15 +95,22 @@ func (g *GoPool) NumUnExecu() int {
 
 // Close when Close ,the pool will enable goroutine, and the func in the pool will be started with goroutine
 func (g *GoPool) Close() {
-	defer func() { recover() }()
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 1) {
 		g.close = true
 		g.cancel()
-		go func() {
-			<-time.After(10 * time.Second)
-			close(g.funcnPool)
-		}()
-		close(g.pool)
+		g.release()
+	}
+}
+
+// release ends the idle workers. A worker belongs to whoever takes it out of g.pool.
+func (g *GoPool) release() {
+	for {
+		select {
+		case t := <-g.pool:
+			close(t.task)
+		default:
+			return
+		}
 	}
 }
 
@@ -134,31 +134,46 @@ func (g *GoPool) funcn() {
 }
 
 func (g *GoPool) _funcn() {
-	defer func() { recover() }()
-	for f := range g.funcnPool {
+	for {
+		var f func()
+		select {
+		case f = <-g.funcnPool:
+		default:
+			return
+		}
 		if g.close {
 			go f()
 		} else {
-			g.slots <- struct{}{}
-			var t *funcn
 			select {
-			case t = <-g.pool:
-			default:
-				t = &funcn{task: make(chan func(), 1), id: atomic.AddInt64(&g.id, 1), pool: g}
+			case g.slots <- struct{}{}:
+				g.dispatch(f)
+			case <-g.ctx.Done():
+				go f()
 			}
-			t.add(f)
-		}
-		if atomic.AddInt64(&g.tnum, -1) <= 0 {
-			break
 		}
+		atomic.AddInt64(&g.tnum, -1)
 	}
 }
 
+// dispatch hands f to an idle worker, or to a new one.
+func (g *GoPool) dispatch(f func()) {
+	var t *funcn
+	select {
+	case t = <-g.pool:
+	default:
+		t = &funcn{task: make(chan func(), 1), id: atomic.AddInt64(&g.id, 1), pool: g}
+	}
+	t.add(f)
+}
+
 func (g *GoPool) put(f *funcn) (ok bool) {
-	defer func() { <-g.slots }()
-	if f.id <= g.minlimit && atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) {
+	if f.id <= g.minlimit {
 		g.pool <- f
 		ok = true
 	}
+	<-g.slots
+	if atomic.CompareAndSwapInt32(&g._closeflag, 1, 1) {
+		g.release()
+	}
 	return
 }
-- 
2.43.0


From 05456208180c73d06367dab9ab480bdf7544455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 12/30] fix: WaitWithCancel without a timeout still ends when
 its context is cancelled

---
 lock/await.go     | 37 ++++++++++++++++++-------------------
 lock/fastawait.go | 37 ++++++++++++++++++-------------------
 2 files changed, 36 insertions(+), 38 deletions(-)

diff --git a/lock/await.go b/lock/await.go
index 652e469..627f7ce 100644
--- a/lock/await.go
+++ b/lock/await.go
@@ -89,29 +89,28 @@ func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.
 	defer recoverpanic(&err)
 	defer at.m.Del(idx)
 	ch := at.Get(idx)
+	var timeoutCh <-chan time.Time // nil without a timeout: never ready
 	if timeout > 0 {
 		timer := time.NewTimer(timeout)
 		defer timer.Stop()
-		select {
-		case <-ctx.Done():
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
-			return r, true, fmt.Errorf("cancel %d", idx)
-		case <-timer.C:
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
-			return r, false, fmt.Errorf("wait %d timeout", idx)
-		case r = <-ch:
-			return r, false, nil
-		}
-	} else {
-		r = <-ch
+		timeoutCh = timer.C
+	}
+	select {
+	case <-ctx.Done():
+		defer func() {
+			defer recoverpanic(nil)
+			close(ch)
+		}()
+		return r, true, fmt.Errorf("cancel %d", idx)
+	case <-timeoutCh:
+		defer func() {
+			defer recoverpanic(nil)
+			close(ch)
+		}()
+		return r, false, fmt.Errorf("wait %d timeout", idx)
+	case r = <-ch:
+		return r, false, nil
 	}
-	return
 }
 
 // Wait wait for the channel data to return or close, and set the timeout period
diff --git a/lock/fastawait.go b/lock/fastawait.go
index 2f562f1..a9267db 100644
--- a/lock/fastawait.go
+++ b/lock/fastawait.go
@@ -67,29 +67,28 @@ func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeou
 	ch := make(chan T, 1)
 	fa.db.Put(syncId, ch)
 	defer fa.del(syncId)
+	var timeoutCh <-chan time.Time // nil without a timeout: never ready
 	if timeout > 0 {
 		timer := time.NewTimer(timeout)
 		defer timer.Stop()
-		select {
-		case <-ctx.Done():
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
-			return r, true, fmt.Errorf("wait %d cancel", syncId)
-		case <-timer.C:
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
-			return r, false, fmt.Errorf("wait %d timeout", syncId)
-		case r = <-ch:
-			return
-		}
-	} else {
-		r = <-ch
+		timeoutCh = timer.C
+	}
+	select {
+	case <-ctx.Done():
+		defer func() {
+			defer recoverpanic(nil)
+			close(ch)
+		}()
+		return r, true, fmt.Errorf("wait %d cancel", syncId)
+	case <-timeoutCh:
+		defer func() {
+			defer recoverpanic(nil)
+			close(ch)
+		}()
+		return r, false, fmt.Errorf("wait %d timeout", syncId)
+	case r = <-ch:
+		return
 	}
-	return
 }
 
 func (fa *FastAwait[T]) CloseAndPut(syncId int64, v T) (err error) {
-- 
2.43.0


From 321028f801b6c75a3f0d954b30cba0235935e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:52 +0000
Subject: [PATCH 13/30] fix: BloomFilter whose computed size is zero bits still
 stores items

---
 cache/bloom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/bloom.go b/cache/bloom.go
index 4a1eb41..9ad8ee3 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -29,6 +29,9 @@ type BloomFilter struct {
 // NewBloomFilter creates a new bloom filter with the specified size, hash function count, and capacity.
 func NewBloomFilter(expectedItems uint64, falsePositiveRate float64) (r *BloomFilter) {
 	m := uint(-float64(expectedItems) * math.Log(falsePositiveRate) / (math.Log(2) * math.Log(2)))
+	if m == 0 {
+		m = 1
+	}
 	k := int(float64(m) / float64(expectedItems) * math.Log(2))
 	if k == 0 {
 		k = 1
-- 
2.43.0


From f16bfe6e37a231f2c9b3332fe1c4d9b3db2af89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:53 +0000
Subject: [PATCH 14/30] fix: BloomFilter keeps concurrently added items, also
 while it rotates

---
 cache/bloom.go | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/cache/bloom.go b/cache/bloom.go
index 9ad8ee3..d355885 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -20,7 +20,7 @@ type BloomFilter struct {
 	bits          [3][]uint64 // Bit array to store the presence information for each segment.
 	hashCount     int         // Number of hash functions.
 	seeds         []maphash.Seed
-	mux           sync.Mutex
+	mux           sync.RWMutex
 	numCount      atomic.Uint64
 	arraySize     uint64
 	expectedItems uint64
@@ -50,7 +50,7 @@ func NewBloomFilter(expectedItems uint64, falsePositiveRate float64) (r *BloomFi
 		arraySize:     words,
 		expectedItems: expectedItems,
 	}
-	r.getBitIndex()
+	r.rotate()
 	return
 }
 
@@ -58,49 +58,54 @@ func (bf *BloomFilter) String() string {
 	return fmt.Sprintf("hashCount:%d,arraySize:%d,expectedItems:%d,bytes:%d", bf.hashCount, bf.arraySize, bf.expectedItems, bf.arraySize*8*2)
 }
 
-// setBit sets the bit at the given index to 1.
-func (bf *BloomFilter) setBit(index uint64) {
+// setBit sets the bit at the given index to 1. The caller holds the write lock.
+func (bf *BloomFilter) setBit(id int, index uint64) {
 	wordIndex := index / 64
 	bitIndex := index % 64
-	id, _ := bf.getBitIndex()
 	bf.bits[id][wordIndex] |= (uint64(1) << bitIndex)
 }
 
 // testBit checks if the bit at the given index is set (returns true if set, false otherwise).
-func (bf *BloomFilter) testBit(index uint64) bool {
-	defer recoverPanic(nil)
+// The caller holds the read lock.
+func (bf *BloomFilter) testBit(id, prevId int, index uint64) bool {
 	wordIndex := index / 64
 	bitIndex := index % 64
-	id, prevId := bf.getBitIndex()
 	offset := uint64(1) << bitIndex
-	return (bf.bits[id][wordIndex]&offset) != 0 || (bf.bits[prevId][wordIndex]&offset) != 0
+	return (bf.bits[id] != nil && (bf.bits[id][wordIndex]&offset) != 0) ||
+		(bf.bits[prevId] != nil && (bf.bits[prevId][wordIndex]&offset) != 0)
 }
 
 // Add adds an item (as byte slice) to the bloom filter using multiple hash functions.
 func (bf *BloomFilter) Add(item []byte) {
 	defer recoverPanic(nil)
+	bf.mux.Lock()
+	defer bf.mux.Unlock()
 	bf.numCount.Add(1)
+	id := bf.rotate()
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
-		bf.setBit(index)
+		bf.setBit(id, index)
 	}
 }
 
 // Contains if an item (as byte slice) is possibly in the bloom filter.
 func (bf *BloomFilter) Contains(item []byte) bool {
 	defer recoverPanic(nil)
+	bf.mux.RLock()
+	defer bf.mux.RUnlock()
+	id, prevId, _ := bf.getBitIndex()
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
-		if !bf.testBit(index) {
+		if !bf.testBit(id, prevId, index) {
 			return false
 		}
 	}
 	return true
 }
 
-func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
+// getBitIndex returns the segment that takes new items, the one before it and the one to clear.
+func (bf *BloomFilter) getBitIndex() (index, prevIndex, rmIndex int) {
 	f := bf.numCount.Load() % (bf.expectedItems*3 + 1)
-	rmIndex := 0
 	if f < bf.expectedItems {
 		index, rmIndex, prevIndex = 0, 1, 2
 	} else if f < bf.expectedItems*2 {
@@ -108,15 +113,15 @@ func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
 	} else {
 		index, rmIndex, prevIndex = 2, 0, 1
 	}
+	return
+}
+
+// rotate makes the current segment ready for new items. The caller holds the write lock.
+func (bf *BloomFilter) rotate() (index int) {
+	index, _, rmIndex := bf.getBitIndex()
 	if bf.bits[index] == nil {
-		bf.mux.Lock()
-		if bf.bits[index] == nil {
-			bf.bits[index] = make([]uint64, bf.arraySize)
-		}
-		if bf.bits[rmIndex] != nil {
-			bf.bits[rmIndex] = nil
-		}
-		bf.mux.Unlock()
+		bf.bits[index] = make([]uint64, bf.arraySize)
+		bf.bits[rmIndex] = nil
 	}
 	return
 }
-- 
2.43.0


From cc041de9f9500ddc4b5f123d85cddc8aa1d5e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 15/30] fix: fastio writes queued data, keeps offsets right and
 reports write errors

Data queued by Write could stay in memory for good, also after Close; Write kept the
caller's slice; an error while draining left the lock held and never reached the caller;
two direct Writes could run together; WriteAt always failed on a file from Open.
---
 fastio/file.go |  24 ++++--
 fastio/fw.go   | 202 ++++++++++++++++++++++++++++++++-----------------
 fastio/util.go |   9 ---
 3 files changed, 152 insertions(+), 83 deletions(-)

diff --git a/fastio/file.go b/fastio/file.go
index 4f4e339..945e831 100644
--- a/fastio/file.go
+++ b/fastio/file.go
@@ -25,15 +25,29 @@ func Open(path string) (r File, err error) {
 	if err != nil {
 		return nil, err
 	}
-	return New(f)
+	// f appends, so that it can't be used for WriteAt.
+	at, err := os.OpenFile(path, os.O_RDWR, 0666)
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	if r, err = newFile(f, at); err != nil {
+		f.Close()
+		at.Close()
+	}
+	return
 }
 
 func New(f *os.File) (r File, err error) {
+	return newFile(f, f)
+}
+
+func newFile(f, at *os.File) (r File, err error) {
 	ret, err := offset(f)
 	if err != nil {
 		return nil, err
 	}
-	fh := &fileHandle{file: f, offset: ret}
+	fh := &fileHandle{file: f, fileAt: at, offset: ret}
 	fh.writer = newWriter(fh)
 	return fh, nil
 }
@@ -41,12 +55,13 @@ func New(f *os.File) (r File, err error) {
 type fileHandle struct {
 	offset  int64
 	file    *os.File
+	fileAt  *os.File // for WriteAt
 	isClose bool
 	writer  writer
 }
 
 func (f *fileHandle) WriteAt(b []byte, off int64) (n int, err error) {
-	return f.file.WriteAt(b, off)
+	return f.writer.WriteAt(b, off)
 }
 
 func (f *fileHandle) WriteSync(b []byte) (offset int64, err error) {
@@ -66,6 +81,5 @@ func (f *fileHandle) Read(b []byte) (n int, err error) {
 }
 
 func (f *fileHandle) Close() (err error) {
-	f.isClose = true
-	return f.file.Close()
+	return f.writer.Close()
 }
diff --git a/fastio/fw.go b/fastio/fw.go
index 4028d18..99d56eb 100644
--- a/fastio/fw.go
+++ b/fastio/fw.go
@@ -8,120 +8,184 @@
 package fastio
 
 import (
-	"bufio"
+	"io"
+	"os"
 	"sync"
 	"sync/atomic"
-	"time"
 )
 
+const maxBatch = 1 << 16
+
 type writer interface {
 	WriteSync(bs []byte) (offset int64, err error)
 	Write(bs []byte) (n int, err error)
+	WriteAt(bs []byte, off int64) (n int, err error)
+	Close() (err error)
 }
 
 type writeData struct {
 	data   []byte
 	offset int64
-	done   chan struct{}
+	err    error
+	done   chan struct{} // nil when nobody waits for the result
 }
 
 type mwriter struct {
-	ch    chan *writeData
-	mu    sync.RWMutex
-	wc    int32
-	cc    int32
-	fh    *fileHandle
-	ioend bool
+	ch  chan *writeData
+	mu  sync.Mutex // held by whoever writes to the file
+	cc  int32
+	fh  *fileHandle
+	buf []byte
+	err error // why data of a Write that has returned was lost
+	emu sync.Mutex
 }
 
 func newWriter(fh *fileHandle) writer {
-	return &mwriter{fh: fh, ch: make(chan *writeData, 1<<16), ioend: true}
+	return &mwriter{fh: fh, ch: make(chan *writeData, 1<<16)}
 }
 
 func (m *mwriter) WriteSync(bs []byte) (offset int64, err error) {
+	if err = m.lost(); err != nil {
+		return
+	}
 	defer atomic.AddInt32(&m.cc, -1)
 	if atomic.AddInt32(&m.cc, 1) <= 1 {
+		defer m.drain()
 		m.mu.Lock()
 		defer m.mu.Unlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
-		n := 0
-		n, err = m.fh.file.Write(bs)
+		m.ioWrite()
 		offset = m.fh.offset
-		atomic.AddInt64(&m.fh.offset, int64(n))
+		_, err = m.write(bs)
 		return
 	}
-	atomic.AddInt32(&m.wc, 1)
 	wd := &writeData{data: bs, done: make(chan struct{})}
 	m.ch <- wd
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
-		m.mu.Unlock()
-	} else {
-		select {
-		case <-wd.done:
-			goto END
-		case <-time.After(time.Microsecond):
-			goto START
-		}
-	}
-END:
-	offset = wd.offset
-	return
+	m.mu.Lock()
+	m.ioWrite()
+	m.mu.Unlock()
+	m.drain()
+	<-wd.done
+	return wd.offset, wd.err
 }
 
 func (m *mwriter) Write(bs []byte) (n int, err error) {
+	if err = m.lost(); err != nil {
+		return
+	}
 	defer atomic.AddInt32(&m.cc, -1)
 	if atomic.AddInt32(&m.cc, 1) <= 1 {
-		m.mu.RLock()
-		defer m.mu.RUnlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
-		if n, err = m.fh.file.Write(bs); n > 0 {
-			atomic.AddInt64(&m.fh.offset, int64(n))
-		}
-		return n, err
+		defer m.drain()
+		m.mu.Lock()
+		defer m.mu.Unlock()
+		m.ioWrite()
+		return m.write(bs)
 	}
-	atomic.AddInt32(&m.wc, 1)
-	m.ch <- &writeData{data: bs}
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
+	m.ch <- &writeData{data: append([]byte(nil), bs...)}
+	m.drain()
+	return len(bs), nil
+}
+
+func (m *mwriter) WriteAt(bs []byte, off int64) (n int, err error) {
+	defer m.drain()
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	m.ioWrite()
+	n, err = m.fh.fileAt.WriteAt(bs, off)
+	if end := off + int64(n); n > 0 && end > m.fh.offset {
+		if end, e := offset(m.fh.file); e == nil {
+			m.fh.offset = end
+		} else if err == nil {
+			err = e
 		}
+	}
+	return
+}
+
+// Close writes what is queued and closes the file. It reports the data lost since the last report.
+func (m *mwriter) Close() (err error) {
+	m.mu.Lock()
+	m.ioWrite()
+	m.fh.isClose = true
+	if m.fh.fileAt != m.fh.file {
+		err = m.fh.fileAt.Close()
+	}
+	if e := m.fh.file.Close(); e != nil {
+		err = e
+	}
+	m.mu.Unlock()
+	m.drain()
+	if e := m.lost(); e != nil {
+		err = e
+	}
+	return
+}
+
+// drain writes what is queued, unless someone is at it, who then comes back here.
+func (m *mwriter) drain() {
+	for len(m.ch) > 0 && m.mu.TryLock() {
+		m.ioWrite()
 		m.mu.Unlock()
-	} else if m.ioend {
-		goto START
 	}
-	return len(bs), nil
 }
 
-func (m *mwriter) ioWrite() (err error) {
-	if m.wc == 0 {
-		return
+// lost returns the failure that lost data of a returned Write, once.
+func (m *mwriter) lost() (err error) {
+	m.emu.Lock()
+	defer m.emu.Unlock()
+	err, m.err = m.err, nil
+	return
+}
+
+// write appends bs to the file. The caller holds m.mu.
+func (m *mwriter) write(bs []byte) (n int, err error) {
+	if m.fh.isClose {
+		return 0, os.ErrClosed
+	}
+	n, err = m.fh.file.Write(bs)
+	if n > 0 {
+		m.fh.offset += int64(n)
 	}
-	m.ioend = false
-	defer recoverable(&err)
-	bw := bufio.NewWriter(m.fh.file)
-	for wd := range m.ch {
-		if wd.done != nil {
-			defer func() { close(wd.done) }()
+	if n < len(bs) && err == nil {
+		err = io.ErrShortWrite
+	}
+	return
+}
+
+// ioWrite writes the queued data. The caller holds m.mu.
+func (m *mwriter) ioWrite() {
+	for {
+		m.buf = m.buf[:0]
+		var batch []*writeData
+		for len(m.buf) < maxBatch {
+			var wd *writeData
+			select {
+			case wd = <-m.ch:
+			default:
+			}
+			if wd == nil {
+				break
+			}
+			batch = append(batch, wd)
+			m.buf = append(m.buf, wd.data...)
 		}
-		wd.offset = m.fh.offset
-		if _, err = bw.Write(wd.data); err != nil {
+		if len(batch) == 0 {
 			return
 		}
-		atomic.AddInt64(&m.fh.offset, int64(len(wd.data)))
-		if atomic.AddInt32(&m.wc, -1) == 0 {
-			break
+		offset := m.fh.offset
+		n, err := m.write(m.buf)
+		end := offset + int64(n)
+		for _, wd := range batch {
+			wd.offset = offset
+			if offset += int64(len(wd.data)); offset > end {
+				wd.err = err
+			}
+			if wd.done != nil {
+				close(wd.done)
+			} else if wd.err != nil {
+				m.emu.Lock()
+				m.err = wd.err
+				m.emu.Unlock()
+			}
 		}
 	}
-	m.ioend = true
-	err = bw.Flush()
-	return
 }
diff --git a/fastio/util.go b/fastio/util.go
index fb63329..288df78 100644
--- a/fastio/util.go
+++ b/fastio/util.go
@@ -8,7 +8,6 @@
 package fastio
 
 import (
-	"fmt"
 	"io"
 	"os"
 )
@@ -16,11 +15,3 @@ import (
 func offset(file *os.File) (int64, error) {
 	return file.Seek(0, io.SeekEnd)
 }
-
-func recoverable(err *error) {
-	if e := recover(); e != nil {
-		if err != nil {
-			*err = fmt.Errorf("%v", e)
-		}
-	}
-}
-- 
2.43.0


From 85311a6b37db56b76e0705f0ee80c63cdfddefb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:53 +0000
Subject: [PATCH 16/30] fix: mmap rejects offsets outside the file and syncs
 empty writes without panicking

---
 mmap/mmap.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index a999493..156d54e 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -24,13 +24,13 @@ func NewMMAP(f *os.File, startOffset int64) (m *Mmap, err error) {
 		return nil, errors.New("the file capacity is zero")
 	}
 
+	if startOffset < 0 || startOffset >= fif.Size() {
+		return nil, errors.New("offset Exceeds the file limit")
+	}
 	_mmap, err := gommap.Map(f, gommap.RDWR, 0)
 	if err != nil {
 		return nil, err
 	}
-	if startOffset >= fif.Size() {
-		return nil, errors.New("offset Exceeds the file limit")
-	}
 	m = &Mmap{file: f, _mmap: _mmap, maxsize: fif.Size(), mux: &sync.Mutex{}, offset: startOffset}
 	return
 }
@@ -58,7 +58,7 @@ func (t *Mmap) Append(bs []byte) (n int64, err error) {
 }
 
 func (t *Mmap) AppendSync(bs []byte) (n int64, err error) {
-	if n, err = t.Append(bs); err == nil {
+	if n, err = t.Append(bs); err == nil && len(bs) > 0 {
 		err = mmapSyncToDisk(t.file, t._mmap, n, len(bs))
 	}
 	return
@@ -66,7 +66,7 @@ func (t *Mmap) AppendSync(bs []byte) (n int64, err error) {
 
 func (t *Mmap) WriteAt(bs []byte, offset int) (err error) {
 	t.mux.Lock()
-	if offset+len(bs) > int(t.maxsize) {
+	if offset < 0 || offset > int(t.maxsize)-len(bs) {
 		err = errors.New("exceeding file size limit")
 		t.mux.Unlock()
 		return
@@ -80,7 +80,7 @@ func (t *Mmap) WriteAt(bs []byte, offset int) (err error) {
 }
 
 func (t *Mmap) WriteAtSync(bs []byte, offset int) (err error) {
-	if err = t.WriteAt(bs, offset); err == nil {
+	if err = t.WriteAt(bs, offset); err == nil && len(bs) > 0 {
 		err = mmapSyncToDisk(t.file, t._mmap, int64(offset), len(bs))
 	}
 	return
-- 
2.43.0


From 3122d48b6d824d1559a29c7780446dc9940b5025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:05 +0000
Subject: [PATCH 17/30] fix: Buffer.Read consumes the last bytes and reports
 EOF, WriteInt32 returns the bytes written

---
 buffer/buffer.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 8e35e2c..dd94b8e 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -64,7 +64,7 @@ func (b *Buffer) WriteString(s string) (int, error) {
 func (b *Buffer) WriteInt32(i int) (int, error) {
 	if b != nil {
 		*b = append(*b, int32ToBytes(int32(i))...)
-		return 8, nil
+		return 4, nil
 	} else {
 		return 0, fmt.Errorf("WriteInt32: buffer is nil")
 	}
@@ -97,15 +97,14 @@ func (b *Buffer) Len() int {
 }
 
 func (b *Buffer) Read(p []byte) (n int, err error) {
-	if b == nil {
+	if b == nil || b.Len() == 0 {
 		if len(p) == 0 {
 			return 0, nil
 		}
 		return 0, io.EOF
 	}
-	if n = copy(p, *b); n < b.Len() {
-		*b = (*b)[n:]
-	}
+	n = copy(p, *b)
+	*b = (*b)[n:]
 	return n, nil
 }
 
-- 
2.43.0


From 035a1142fe375b991d691f5ec33d35094b471704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:05 +0000
Subject: [PATCH 18/30] fix: BufferPool.Put reports that nil was not put back

---
 pool/buffer/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/buffer/buffer.go b/pool/buffer/buffer.go
index be8b532..d0ffc4b 100644
--- a/pool/buffer/buffer.go
+++ b/pool/buffer/buffer.go
@@ -41,7 +41,7 @@ func (this *BufferPool) Put(buf *bytes.Buffer) (ok bool) {
 		this.pool[pre].Put(buf)
 		ok = true
 	}
-	return true
+	return
 }
 
 func (this *BufferPool) getRouter(len int) (pre int) {
-- 
2.43.0


From 6067219c782d7f8f5a3266adcd40b169c6d986ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:06 +0000
Subject: [PATCH 19/30] fix: util.Zlib returns the whole compressed stream

---
 util/compress.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/compress.go b/util/compress.go
index a1233fb..4848ec1 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -19,10 +19,12 @@ func Zlib(bs []byte) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, zlib.DefaultCompression); err == nil {
-		defer compressor.Close()
 		if _, err = compressor.Write(bs); err != nil {
 			return nil, err
 		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From 1a9d2442c4b3a7f64910f1144286b56885e7b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:06 +0000
Subject: [PATCH 20/30] fix: util.UnZlib and util.UnGzip report damaged and
 truncated data

---
 util/compress.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/util/compress.go b/util/compress.go
index 4848ec1..8922b84 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -37,7 +37,9 @@ func UnZlib(bs []byte) (_r []byte, err error) {
 	var read io.ReadCloser
 	if read, err = zlib.NewReader(bytes.NewReader(bs)); err == nil {
 		defer read.Close()
-		io.Copy(&obuf, read)
+		if _, err = io.Copy(&obuf, read); err != nil {
+			return nil, err
+		}
 		_r = obuf.Bytes()
 	}
 	return
@@ -53,15 +55,7 @@ func Gzip(bs []byte) (buf bytes.Buffer, err error) {
 func UnGzip(bs []byte) (_bb bytes.Buffer, err error) {
 	if gz, er := gzip.NewReader(bytes.NewBuffer(bs)); er == nil {
 		defer gz.Close()
-		var bs = make([]byte, 1024)
-		for {
-			var n int
-			n, err := gz.Read(bs)
-			if (err != nil && err != io.EOF) || n == 0 {
-				break
-			}
-			_bb.Write(bs[:n])
-		}
+		_, err = _bb.ReadFrom(gz)
 	} else {
 		err = er
 	}
-- 
2.43.0


From 18e2680dc6de3004a9181d056cbbd5d5d84e46f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:06 +0000
Subject: [PATCH 21/30] fix: compress.ZlibLevel returns the whole compressed
 stream

---
 compress/compress.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/compress/compress.go b/compress/compress.go
index e834463..eeed2c8 100644
--- a/compress/compress.go
+++ b/compress/compress.go
@@ -32,9 +32,12 @@ func ZlibLevel(bs []byte, level int) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, level); err == nil {
-		defer compressor.Close()
-		compressor.Write(bs)
-		compressor.Flush()
+		if _, err = compressor.Write(bs); err != nil {
+			return nil, err
+		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From efa166aebf22c654ff35f190f2721f29a55300ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:37 +0000
Subject: [PATCH 22/30] fix: Aes leaves the message buffer alone and rejects
 malformed ciphertext

---
 keystore/aes.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index 4d7d32e..c89cecd 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -11,6 +11,7 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/sha256"
+	"errors"
 )
 
 type Aes struct {
@@ -31,7 +32,8 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
 		blockSize := c.BlockSize()
 		bs := bytes.Repeat([]byte{byte(blockSize - len(src)%blockSize)}, blockSize-len(src)%blockSize)
-		_r = append(src, bs...)
+		_r = make([]byte, 0, len(src)+len(bs))
+		_r = append(append(_r, src...), bs...)
 		encrypter := cipher.NewCBCEncrypter(c, this.commonIV[:])
 		encrypter.CryptBlocks(_r, _r)
 	} else {
@@ -42,10 +44,18 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 
 func (this *Aes) DecrypterCbc(bs []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
+		blockSize := c.BlockSize()
+		if len(bs) == 0 || len(bs)%blockSize != 0 {
+			return nil, errors.New("invalid ciphertext length")
+		}
 		decrypter := cipher.NewCBCDecrypter(c, this.commonIV[:])
 		_r = make([]byte, len(bs))
 		decrypter.CryptBlocks(_r, bs)
-		_r = _r[:len(_r)-(int(_r[len(_r)-1]))]
+		n := int(_r[len(_r)-1])
+		if n == 0 || n > blockSize || !bytes.HasSuffix(_r, bytes.Repeat([]byte{byte(n)}, n)) {
+			return nil, errors.New("invalid ciphertext padding")
+		}
+		_r = _r[:len(_r)-n]
 	} else {
 		err = e
 	}
-- 
2.43.0


From f28f93765c4dfde4e38b22201b5b0404976b7719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:37 +0000
Subject: [PATCH 23/30] fix: RSA helpers report unusable keys

---
 keystore/key.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/keystore/key.go b/keystore/key.go
index 3b93680..2a8fac9 100644
--- a/keystore/key.go
+++ b/keystore/key.go
@@ -111,9 +111,17 @@ func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error)
 func RsaEncryptByBytes(msg []byte, publickeyBs []byte) (cipherText []byte, err error) {
 	defer _recovr()
 	pubDecodeBlock, _ := pem.Decode(publickeyBs)
+	if pubDecodeBlock == nil {
+		return nil, errors.New("invalid public key: no PEM data found")
+	}
 	if parsePublicKey, e := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes); e == nil {
-		publicKey := parsePublicKey.(*rsa.PublicKey)
+		publicKey, ok := parsePublicKey.(*rsa.PublicKey)
+		if !ok {
+			return nil, errors.New("invalid public key: not an RSA key")
+		}
 		cipherText, err = rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
+	} else {
+		err = e
 	}
 	return
 }
@@ -139,8 +147,13 @@ func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error
 func RsaDecryptByBytes(cipherText []byte, privateBs []byte) (msg []byte, err error) {
 	defer _recovr()
 	priDecodeBlock, _ := pem.Decode(privateBs)
+	if priDecodeBlock == nil {
+		return nil, errors.New("invalid private key: no PEM data found")
+	}
 	if privateKey, e := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes); e == nil {
 		msg, err = rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
+	} else {
+		err = e
 	}
 	return
 }
-- 
2.43.0


From dfd9f193c414f397aff39ce7d175db390ba34bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:37 +0000
Subject: [PATCH 24/30] fix: UUID.Equals compares the values

---
 uuid/uuid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 1614be8..9bf48b6 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -78,7 +78,7 @@ func (u *UUID) Equals(other *UUID) bool {
 	if other == nil {
 		return false
 	}
-	return u == other
+	return *u == *other
 }
 
 func (u *UUID) Variant() byte {
-- 
2.43.0


From 75872181936de890f64ed7d1955a7708a53cd74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:37 +0000
Subject: [PATCH 25/30] fix: uuid.Parse rejects strings without the dashes

---
 uuid/uuid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 9bf48b6..81991da 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -96,6 +96,9 @@ func Parse(uuidStr string) (*UUID, error) {
 	if len(uuidStr) != 36 {
 		return nil, errors.New("invalid UUID string length")
 	}
+	if uuidStr[8] != '-' || uuidStr[13] != '-' || uuidStr[18] != '-' || uuidStr[23] != '-' {
+		return nil, errors.New("invalid UUID string format")
+	}
 	var uuid UUID
 	strippedUUID := []byte(uuidStr[:8] + uuidStr[9:13] + uuidStr[14:18] + uuidStr[19:23] + uuidStr[24:])
 	if _, err := hex.Decode(uuid[:], strippedUUID); err != nil {
-- 
2.43.0


From e4dc9510574dc2ca76f54a5ce885f8352bdcad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:26 +0000
Subject: [PATCH 26/30] fix: KeyStore replaces its file in one step, a crash
 during Write lost the content

---
 keystore/bin.go | 47 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/keystore/bin.go b/keystore/bin.go
index 9bbc77b..1ebb6d7 100644
--- a/keystore/bin.go
+++ b/keystore/bin.go
@@ -10,8 +10,8 @@ package keystore
 import (
 	"errors"
 	"fmt"
-	"io"
 	"os"
+	"path/filepath"
 	"sync"
 
 	"github.com/donnie4w/gofer/util"
@@ -20,9 +20,8 @@ import (
 var KeyStore *_keyStore
 
 type _keyStore struct {
-	mux          *sync.Mutex
-	fname        string
-	_fileHandler *os.File
+	mux   *sync.Mutex
+	fname string
 }
 
 func NewKeyStore(dir string, name string) (ks *_keyStore, err error) {
@@ -36,7 +35,8 @@ func LoadKeyStore(dir string, name string) (ks *_keyStore, err error) {
 	fname := fmt.Sprint(dir, "/", name)
 	var _fileHandler *os.File
 	if _fileHandler, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE, 0666); err == nil {
-		ks = &_keyStore{&sync.Mutex{}, fname, _fileHandler}
+		_fileHandler.Close()
+		ks = &_keyStore{&sync.Mutex{}, fname}
 	}
 	return
 }
@@ -44,20 +44,49 @@ func LoadKeyStore(dir string, name string) (ks *_keyStore, err error) {
 func (this *_keyStore) Write(bs []byte) (err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
-	this._fileHandler.Seek(0, io.SeekStart)
-	this._fileHandler.Truncate(0)
 	var obs []byte
 	if obs, err = util.Zlib(bs); err != nil {
 		obs = bs
 	}
-	_, err = this._fileHandler.Write(obs)
+	return this.replace(obs)
+}
+
+// replace puts bs in place of the content of the file in one step, so that
+// a crash leaves either the old content or the new one.
+func (this *_keyStore) replace(bs []byte) (err error) {
+	fi, err := os.Stat(this.fname)
+	if err != nil {
+		return
+	}
+	tmp, err := os.CreateTemp(filepath.Dir(this.fname), filepath.Base(this.fname)+".tmp")
+	if err != nil {
+		return
+	}
+	if _, err = tmp.Write(bs); err == nil {
+		err = tmp.Sync()
+	}
+	if e := tmp.Close(); err == nil {
+		err = e
+	}
+	if err == nil {
+		err = os.Chmod(tmp.Name(), fi.Mode())
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), this.fname)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
 	return
 }
 
 func (this *_keyStore) Read() (bs []byte, err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
-	fi, err := this._fileHandler.Stat()
+	fi, err := os.Stat(this.fname)
+	if err != nil {
+		return
+	}
 	if fi.Size() > 0 {
 		if bs, err = util.ReadFile(this.fname); err == nil && bs != nil {
 			if obs, er := util.UnZlib(bs); er == nil {
-- 
2.43.0


From dced3d81250a48f5257eb8b4023cf6be099e50fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:51 +0000
Subject: [PATCH 27/30] fix: websocket Handler keeps the reason of its end,
 OnError got nil after a local Close

---
 websocket/wshandle.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index 493d6d3..a5a2eac 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -38,9 +38,19 @@ type Handler struct {
 	Cfg  *Config
 	conn *wss.Conn
 	mux  *sync.Mutex
+	emux sync.Mutex
 	err  error
 }
 
+// fail records why the connection ended; the first reason is kept.
+func (wh *Handler) fail(err error) {
+	wh.emux.Lock()
+	defer wh.emux.Unlock()
+	if wh.err == nil {
+		wh.err = err
+	}
+}
+
 func NewHandler(cfg *Config) (wh *Handler, err error) {
 	var conn *wss.Conn
 	config := &wss.Config{Version: wss.ProtocolVersionHybi13}
@@ -78,7 +88,7 @@ func NewHandler(cfg *Config) (wh *Handler, err error) {
 		}
 	}
 	if err == nil && conn != nil {
-		wh = &Handler{cfg, conn, &sync.Mutex{}, nil}
+		wh = &Handler{Cfg: cfg, conn: conn, mux: &sync.Mutex{}}
 		if cfg.OnOpen != nil {
 			cfg.OnOpen(wh)
 		}
@@ -94,14 +104,14 @@ func (wh *Handler) sendws(bs []byte) (err error) {
 }
 
 func (wh *Handler) Send(bs []byte) error {
-	if wh.err != nil {
-		return wh.err
+	if err := wh.Error(); err != nil {
+		return err
 	}
 	return wh.sendws(bs)
 }
 
 func (wh *Handler) Close() (err error) {
-	wh.err = errors.New("connection is closed")
+	wh.fail(errors.New("connection is closed"))
 	if wh.conn != nil {
 		err = wh.conn.Close()
 	}
@@ -109,15 +119,16 @@ func (wh *Handler) Close() (err error) {
 }
 
 func (wh *Handler) Error() error {
+	wh.emux.Lock()
+	defer wh.emux.Unlock()
 	return wh.err
 }
 
 func (wh *Handler) read() {
-	var err error
-	for wh.err == nil {
+	for wh.Error() == nil {
 		var byt []byte
-		if err = wss.Message.Receive(wh.conn, &byt); err != nil {
-			wh.err = err
+		if err := wss.Message.Receive(wh.conn, &byt); err != nil {
+			wh.fail(err)
 			break
 		}
 		if byt != nil && wh.Cfg.OnMessage != nil {
@@ -125,7 +136,7 @@ func (wh *Handler) read() {
 		}
 	}
 	if wh.Cfg.OnError != nil {
-		go wh.Cfg.OnError(wh, err)
+		go wh.Cfg.OnError(wh, wh.Error())
 	}
 	wh.Close()
 	if wh.Cfg.OnClose != nil {
-- 
2.43.0


From 37b0200e92f5ed9b6a919be17167412354bfdfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:38 +0000
Subject: [PATCH 28/30] fix: UUID.Variant recognises all RFC 4122 UUIDs

---
 uuid/uuid.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 81991da..2985cd9 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -82,10 +82,10 @@ func (u *UUID) Equals(other *UUID) bool {
 }
 
 func (u *UUID) Variant() byte {
-	switch u[8] & 0xe0 {
-	case 0x80:
+	switch {
+	case u[8]&0xc0 == 0x80:
 		return 1 // RFC 4122
-	case 0xc0:
+	case u[8]&0xe0 == 0xc0:
 		return 2 // Microsoft
 	default:
 		return 0 // NCS compatibility
-- 
2.43.0


From b81ae96e39edc93c40483c53975efed7dfdfd3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:30 +0000
Subject: [PATCH 29/30] fix: image Mode0 keeps the result within the given box
 for every aspect ratio

---
 image/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image/image.go b/image/image.go
index 1e4f448..73048c2 100644
--- a/image/image.go
+++ b/image/image.go
@@ -522,7 +522,7 @@ func getMinAndkeepRatio(w, h, newwidth, newheight int) (int, int) {
 	}
 	r := float64(w) / float64(h)
 	if newwidth < w && newheight < h {
-		if newwidth > newheight {
+		if float64(newwidth)/float64(w) > float64(newheight)/float64(h) {
 			newwidth = int(float64(newheight) * r)
 		} else {
 			newheight = int(float64(newwidth) / r)
-- 
2.43.0


From b8884a20a7b611ada7ca0bab1f1022af7fa7b0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:30 +0000
Subject: [PATCH 30/30] fix: image Mode1 no longer uses the swapped sides of
 portrait images

---
 image/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image/image.go b/image/image.go
index 73048c2..4396a5c 100644
--- a/image/image.go
+++ b/image/image.go
@@ -456,7 +456,7 @@ func imageType(srcData []byte) (s string) {
 
 func praseMode(mode Mode, w, h, preWidth, preHeight int) (nw, nh int, resizeType ResizeType) {
 	width, height := newSide4mode(w, h, preWidth, preHeight)
-	if width > w && height > h {
+	if mode != Mode1 && width > w && height > h {
 		return w, h, SCALE
 	}
 	switch mode {
-- 
2.43.0

