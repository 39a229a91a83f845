// Driver for packages hashmap and cache (C10-C16).
package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/donnie4w/gofer/cache"
	"github.com/donnie4w/gofer/hashmap"
	"github.com/donnie4w/gofer/zzv/drv"
	"github.com/donnie4w/gofer/zzv/vsched"
)

type obj interface{ Do(op []string) []string }

func b(x bool) string {
	if x {
		return "t"
	}
	return "f"
}

// vals maps abstract values to concrete ones.
type vals[V any] struct {
	to   func(string) V
	from func(V) string
}

var anyVals = vals[any]{
	to: func(s string) any {
		switch s {
		case "v0":
			return nil
		case "v1":
			return "one"
		case "v2":
			return 22
		}
		return s
	},
	from: func(v any) string {
		switch x := v.(type) {
		case nil:
			return "v0"
		case string:
			if x == "one" {
				return "v1"
			}
			return x
		case int:
			if x == 22 {
				return "v2"
			}
		}
		return fmt.Sprintf("?%v", v)
	},
}
var strVals = vals[string]{
	to: func(s string) string { return map[string]string{"v0": ""}[s] + strings.TrimPrefix(s, "v0") },
	from: func(v string) string {
		if v == "" {
			return "v0"
		}
		return v
	},
}
var ptrs = map[string]*int{"v0": nil, "v1": new(int), "v2": new(int), "v3": new(int)}
var ptrVals = vals[*int]{
	to: func(s string) *int { return ptrs[s] },
	from: func(v *int) string {
		for k, p := range ptrs {
			if p == v {
				return k
			}
		}
		return "?ptr"
	},
}
var errVals = vals[error]{
	to: func(s string) error {
		if s == "v0" {
			return nil
		}
		return verr(s)
	},
	from: func(v error) string {
		if v == nil {
			return "v0"
		}
		return v.Error()
	},
}

type verr string

func (e verr) Error() string { return string(e) }

// out renders a (value, ok) result: an absent value must be the zero value.
func (vs vals[V]) out(v V, ok bool) []string {
	if ok {
		return []string{vs.from(v), "t"}
	}
	if vs.from(v) != "v0" {
		return []string{vs.from(v), "f"}
	}
	return []string{"-", "f"}
}

// keys maps abstract keys to concrete ones.
type keys[K comparable] struct {
	m map[string]K
	r map[K]string
}

func mkKeys[K comparable](names []string, ks []K) keys[K] {
	k := keys[K]{map[string]K{}, map[K]string{}}
	for i, n := range names {
		k.m[n], k.r[ks[i]] = ks[i], n
	}
	return k
}
func (k keys[K]) to(s string) K {
	v, ok := k.m[s]
	if !ok {
		panic("driver: unknown key " + s)
	}
	return v
}
func (k keys[K]) from(v K) string {
	if s, ok := k.r[v]; ok {
		return s
	}
	return fmt.Sprintf("?%v", v)
}

// ---------- Map, MapL ----------

type mapAPI[K, V any] interface {
	Put(K, V) (V, bool)
	Get(K) (V, bool)
	Has(K) bool
	Del(K) bool
	Range(func(K, V) bool)
}

type mapObj[K comparable, V any] struct {
	m   mapAPI[K, V]
	len func() int64
	k   keys[K]
	v   vals[V]
}

func (o *mapObj[K, V]) Do(op []string) []string {
	switch op[0] {
	case "put":
		return o.v.out(o.m.Put(o.k.to(op[1]), o.v.to(op[2])))
	case "get":
		return o.v.out(o.m.Get(o.k.to(op[1])))
	case "has":
		return []string{b(o.m.Has(o.k.to(op[1])))}
	case "del":
		return []string{b(o.m.Del(o.k.to(op[1])))}
	case "len":
		return []string{fmt.Sprint(o.len())}
	case "range":
		l := []string{}
		o.m.Range(func(k K, v V) bool { l = append(l, o.k.from(k)+"="+o.v.from(v)); return true })
		sort.Slice(l, func(i, j int) bool { return num(l[i]) < num(l[j]) })
		return l
	case "rangestop":
		n, _ := strconv.Atoi(op[1])
		c := 0
		o.m.Range(func(k K, v V) bool { c++; return c < n })
		return []string{fmt.Sprint(c)}
	}
	panic("driver: op " + op[0])
}

// rangeConc records a Range that runs concurrently with other calls as one "peek" per key: each
// key's reported value (or its absence) must be that key's at some moment of the Range.
func (o *mapObj[K, V]) rangeConc(t int, names []string) {
	for i, n := range names {
		vsched.Log("inv", 100+10*t+i, []string{"peek", n}, []string{})
	}
	got := map[string]string{}
	o.m.Range(func(k K, v V) bool {
		n := o.k.from(k)
		if _, dup := got[n]; dup {
			got[n] = "dup"
		} else {
			got[n] = o.v.from(v)
		}
		return true
	})
	for i, n := range names {
		v, ok := got[n]
		if !ok {
			v = "-"
		}
		vsched.Log("ret", 100+10*t+i, []string{"peek", n}, []string{v})
	}
}

func num(s string) int { n, _ := strconv.Atoi(strings.SplitN(s, "=", 2)[0]); return n }

func newMap[K comparable, V any](l bool, k keys[K], v vals[V]) obj {
	if l {
		m := hashmap.NewMapL[K, V]()
		return &mapObj[K, V]{m, m.Len, k, v}
	}
	return &mapObj[K, V]{hashmap.NewMap[K, V](), nil, k, v}
}

func numNames(n int) []string {
	r := []string{}
	for i := 1; i <= n; i++ {
		r = append(r, fmt.Sprint(i))
	}
	return r
}

var intKeys = []int64{0, -1, math.MinInt64, math.MaxInt64, 64, -64, 7, 1 << 40, 3, 128, 9, -9, 1000, 12345, 77, 78, 79, 80, 81, 82}

func strKeys() []string {
	r := []string{"", "a", "A", "key\x00", "\xff", "日本", "a ", strings.Repeat("x", 300), "0", "-"}
	for len(r) < 20 {
		r = append(r, fmt.Sprint("key", len(r)))
	}
	return r
}

func mkMap(c map[string]string) obj {
	l := c["l"] == "1"
	switch c["conc"] {
	case "str":
		return newMap(l, mkKeys(numNames(20), strKeys()), strVals)
	case "ptr":
		return newMap(l, mkKeys(numNames(20), intKeys), ptrVals)
	case "err":
		return newMap(l, mkKeys(numNames(20), strKeys()), errVals)
	}
	return newMap(l, mkKeys(numNames(20), intKeys), anyVals)
}

// ---------- LimitMap ----------

type limObj[K comparable, V any] struct {
	m *hashmap.LimitMap[K, V]
	k keys[K]
	v vals[V]
}

func (o *limObj[K, V]) Do(op []string) []string {
	switch op[0] {
	case "put":
		return o.v.out(o.m.Put(o.k.to(op[1]), o.v.to(op[2])))
	case "get":
		return o.v.out(o.m.Get(o.k.to(op[1])))
	case "del":
		o.m.Del(o.k.to(op[1]))
		return nil
	case "delmulti":
		ks := []K{}
		for _, k := range op[1:] {
			ks = append(ks, o.k.to(k))
		}
		o.m.RemoveMulti(ks)
		return nil
	case "len":
		return []string{fmt.Sprint(o.m.Len())}
	}
	panic("driver: op " + op[0])
}

func mkLim(c map[string]string) obj {
	n, _ := strconv.Atoi(c["cap"])
	switch c["conc"] {
	case "str":
		return &limObj[string, string]{hashmap.NewLimitMap[string, string](n), mkKeys(numNames(20), strKeys()), strVals}
	case "ptr":
		return &limObj[int64, *int]{hashmap.NewLimitMap[int64, *int](n), mkKeys(numNames(20), intKeys), ptrVals}
	}
	return &limObj[int64, any]{hashmap.NewLimitMap[int64, any](n), mkKeys(numNames(20), intKeys), anyVals}
}

// ---------- LinkedHashMap ----------

type lnkObj[K comparable, V any] struct {
	m *hashmap.LinkedHashMap[K, V]
	k keys[K]
	v vals[V]
}

func (o *lnkObj[K, V]) ent(k K, v V, ok bool) []string {
	if !ok {
		return []string{"-", "-", "f"}
	}
	return []string{o.k.from(k), o.v.from(v), "t"}
}

func (o *lnkObj[K, V]) Do(op []string) []string {
	switch op[0] {
	case "put":
		o.m.Put(o.k.to(op[1]), o.v.to(op[2]))
		return nil
	case "los":
		v, l := o.m.LoadOrStore(o.k.to(op[1]), o.v.to(op[2]))
		return []string{o.v.from(v), b(l)}
	case "get":
		return o.v.out(o.m.Get(o.k.to(op[1])))
	case "del":
		o.m.Delete(o.k.to(op[1]))
		return nil
	case "mtf":
		o.m.MoveToFront(o.k.to(op[1]))
		return nil
	case "len":
		return []string{fmt.Sprint(o.m.Len())}
	case "front":
		return o.ent(o.m.Front())
	case "back":
		return o.ent(o.m.Back())
	case "clear":
		o.m.Clear()
		return nil
	case "iter", "iterdel":
		l := []string{}
		it := o.m.Iterator(op[1] == "f")
		for len(l) < 1000 {
			k, v, ok := it.Next()
			if !ok {
				break
			}
			l = append(l, o.k.from(k)+"="+o.v.from(v))
			if op[0] == "iterdel" {
				o.m.Delete(k)
			}
		}
		return l
	}
	panic("driver: op " + op[0])
}

func mkLnk(c map[string]string) obj {
	n, _ := strconv.ParseInt(c["limit"], 10, 64)
	switch c["conc"] {
	case "str":
		return &lnkObj[string, string]{hashmap.NewLinkedHashMap[string, string](n), mkKeys(numNames(20), strKeys()), strVals}
	case "ptr":
		return &lnkObj[int64, *int]{hashmap.NewLinkedHashMap[int64, *int](n), mkKeys(numNames(20), intKeys), ptrVals}
	}
	return &lnkObj[int64, any]{hashmap.NewLinkedHashMap[int64, any](n), mkKeys(numNames(20), intKeys), anyVals}
}

// ---------- TreeMap ----------

type treeObj[K interface {
	~int64 | ~string | ~float64 | ~uint8
}, V any] struct {
	m *hashmap.TreeMap[K, V]
	k keys[K]
	v vals[V]
}

func (o *treeObj[K, V]) Do(op []string) []string {
	switch op[0] {
	case "put":
		return o.v.out(o.m.Put(o.k.to(op[1]), o.v.to(op[2])))
	case "get":
		return o.v.out(o.m.Get(o.k.to(op[1])))
	case "del":
		o.m.Del(o.k.to(op[1]))
		return nil
	case "asc", "desc":
		n, _ := strconv.Atoi(op[1])
		l := []string{}
		f := func(k K, v V) bool { l = append(l, o.k.from(k)+"="+o.v.from(v)); return len(l) < n }
		if op[0] == "asc" {
			o.m.Ascend(f)
		} else {
			o.m.Descend(f)
		}
		return l
	}
	panic("driver: op " + op[0])
}

func mkTree(c map[string]string) obj {
	d, _ := strconv.Atoi(c["degree"])
	nk := 60
	if n, _ := strconv.Atoi(c["keys"]); n > 0 {
		nk = n
	}
	names := numNames(nk)
	switch c["conc"] {
	case "str":
		ks := []string{"", "\x00", "\x00\x00", "\x01", "A", "AA", "B", "a", "aa", "ab", "b"}
		for i := len(ks); i < nk; i++ {
			ks = append(ks, fmt.Sprintf("c%03d", i))
		}
		return &treeObj[string, string]{hashmap.NewTreeMap[string, string](d), mkKeys(names, ks), strVals}
	case "f64":
		ks := []float64{math.Inf(-1), -math.MaxFloat64, -1.5, -math.SmallestNonzeroFloat64, 0, math.SmallestNonzeroFloat64, 0.1, 1}
		for i := len(ks); i < nk-1; i++ {
			ks = append(ks, float64(i)*1e10)
		}
		ks = append(ks, math.Inf(1))
		return &treeObj[float64, any]{hashmap.NewTreeMap[float64, any](d), mkKeys(names, ks), anyVals}
	case "u8":
		ks := []uint8{}
		for i := 0; i < nk; i++ {
			ks = append(ks, uint8(i*4+3))
		}
		return &treeObj[uint8, *int]{hashmap.NewTreeMap[uint8, *int](d), mkKeys(names, ks), ptrVals}
	}
	ks := []int64{math.MinInt64, math.MinInt64 + 1, -1 << 40, -300, -7, -1, 0, 1, 2, 1 << 31}
	for i := len(ks); i < nk-1; i++ {
		ks = append(ks, 1<<33+int64(i))
	}
	ks = append(ks, math.MaxInt64)
	return &treeObj[int64, any]{hashmap.NewTreeMap[int64, any](d), mkKeys(names, ks), anyVals}
}

// ---------- LruCache ----------

type lruObj struct {
	c  *cache.LruCache[any]
	k  map[string]any
	v  vals[any]
	sk bool
}

func (o *lruObj) Do(op []string) []string {
	switch op[0] {
	case "add":
		o.c.Add(o.k[op[1]], o.v.to(op[2]))
		return nil
	case "get":
		return o.v.out(o.c.Get(o.k[op[1]]))
	case "del":
		o.c.Remove(o.k[op[1]])
		return nil
	case "delmulti":
		ks := []string{}
		for _, k := range op[1:] {
			ks = append(ks, o.k[k].(string))
		}
		o.c.RemoveMulti(ks)
		return nil
	}
	panic("driver: op " + op[0])
}

func mkLru(c map[string]string) obj {
	n, _ := strconv.Atoi(c["cap"])
	k := map[string]any{}
	for i, nm := range numNames(20) {
		if c["conc"] == "str" {
			k[nm] = strKeys()[i]
		} else {
			k[nm] = intKeys[i]
			if i%3 == 1 {
				k[nm] = fmt.Sprint("s", i)
			}
			if i%3 == 2 {
				k[nm] = [2]int{i, 7}
			}
		}
	}
	return &lruObj{cache.NewLruCache[any](n), k, anyVals, c["conc"] == "str"}
}

func main() {
	mk := map[string]func(map[string]string) obj{"map": mkMap, "lim": mkLim, "lnk": mkLnk, "tree": mkTree, "lru": mkLru, "lhm": mkLhm, "ring": mkRing}
	drv.Main(&drv.Component{
		New:   func(cfg map[string]string) any { return mk[cfg["kind"]](cfg) },
		Apply: func(o any, op []string) []string { return o.(obj).Do(op) },
		Raw: func(o any, t int, op []string) bool {
			if op[0] == "crange" {
				o.(interface{ rangeConc(int, []string) }).rangeConc(t, op[1:])
				return true
			}
			return false
		},
		Gen: func(rng *rand.Rand, cfg map[string]string) []string { return gens[cfg["kind"]](rng, cfg) },
	})
}
