package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/donnie4w/gofer/hashmap"
)

// ---------- LimitHashMap ----------

type hkey interface {
	int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string
}

type lhmObj[K hkey, V any] struct {
	m *hashmap.LimitHashMap[K, V]
	k keys[K]
	v vals[V]
}

func (o *lhmObj[K, V]) Do(op []string) []string {
	switch op[0] {
	case "put":
		return o.v.out(o.m.Put(o.k.to(op[1]), o.v.to(op[2])))
	case "get":
		return o.v.out(o.m.Get(o.k.to(op[1])))
	case "has":
		return []string{b(o.m.Contains(o.k.to(op[1])))}
	case "del":
		o.m.Del(o.k.to(op[1]))
		return nil
	case "len":
		return []string{fmt.Sprint(o.m.Len())}
	case "clear":
		o.m.Clear()
		return nil
	}
	panic("driver: op " + op[0])
}

// place finds concrete keys for the abstract ones: two keys share a segment exactly when, in a map
// with one entry per segment, putting the second one evicts the first.
func place[K hkey](n int, cands []K) keys[K] {
	same := func(x, y K) bool {
		if n == 1 {
			return true
		}
		m := hashmap.NewLimitHashMapWithSegment[K, int](n, n)
		m.Put(x, 1)
		m.Put(y, 2)
		return !m.Contains(x)
	}
	segs := []string{"a", "b", "c"}
	var cls [][]K
	enough := func() bool {
		if len(cls) < n && len(cls) < len(segs) {
			return false
		}
		for i := range cls {
			if i < len(segs) && len(cls[i]) < 4 {
				return false
			}
		}
		return true
	}
	seen := map[K]bool{}
	for _, c := range cands {
		seen[c] = true
	}
	var z K
	w := uint(8 * reflect.TypeOf(z).Size())
	for i := 0; i < len(cands) || (i < 3000 && !enough()); i++ {
		if i >= len(cands) { // more keys, when the given ones do not fill the segments
			c := fromBits[K](uint64(i)*7+1, w)
			if n > 3 {
				c = fromBits[K](uint64(i)*0x9E3779B97F4A7C15>>(64-min(w, 64)), w)
			}
			if seen[c] {
				c = cands[0]
			}
			seen[c] = true
			cands = append(cands, c)
			if c == cands[0] {
				continue
			}
		}
		c := cands[i]
		done := false
		for i := range cls {
			if same(cls[i][0], c) {
				cls[i] = append(cls[i], c)
				done = true
				break
			}
		}
		if !done {
			cls = append(cls, []K{c})
		}
	}
	names, ks := []string{}, []K{}
	for i := range cls {
		if i >= len(segs) {
			break
		}
		for j := 0; j < len(cls[i]) && j < 4; j++ {
			names = append(names, segs[i]+fmt.Sprint(j+1))
			ks = append(ks, cls[i][j])
		}
	}
	return mkKeys(names, ks)
}

func ints[K hkey](conv func(int64) K, lim bool) []K {
	seen := map[K]bool{}
	r := []K{}
	for _, x := range []int64{-1, 0, math.MinInt64, math.MaxInt64, 1, 2, 255, 127, -128, 65535, -2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12} {
		k := conv(x)
		if !seen[k] {
			seen[k] = true
			r = append(r, k)
		}
	}
	return r
}

func fromBits[K hkey](x uint64, w uint) K {
	var z K
	switch any(z).(type) {
	case string:
		return any(fmt.Sprint("more", x)).(K)
	case float64:
		return any(math.Float64frombits(x << 2 >> 2)).(K) // (stays away from NaN and -0)
	case float32:
		return any(math.Float32frombits(uint32(x) << 2 >> 2)).(K)
	}
	v := reflect.New(reflect.TypeOf(z)).Elem()
	if v.CanInt() {
		v.SetInt(int64(x<<(64-w)) >> (64 - w))
	} else {
		v.SetUint(x << (64 - w) >> (64 - w))
	}
	return v.Interface().(K)
}

// family gives keys that a weak hash might take for one another: they differ only in their lowest,
// highest or middle bits (near, high, mid), little (far), or carry the same parts in other places (fold). Equal keys, NaNs and -0 are left out.
func family[K hkey](f string) (r []K) {
	var z K
	add := func(k K) {
		for _, x := range r {
			if x == k || k != k {
				return
			}
		}
		if k == k {
			r = append(r, k)
		}
	}
	if _, ok := any(z).(string); ok {
		for _, s := range map[string][]string{
			"far":  {"far off", "a key", "another", "this", "some name", "x-7734"},
			"near": {"abcdefgh0", "abcdefgh1", "abcdefgh2", "abcdefgh3", "abcdefgh", "abcdefgh00", "abcdefgh\x00", "abcdefgh\x00\x00", "abcdefgh ", "abcdefgH"},
			"high": {"0bcdefgh", "1bcdefgh", "2bcdefgh", "\x00bcdefgh", "bcdefgh", " bcdefgh", "Bcdefgh", "0" + strings.Repeat("x", 300), "1" + strings.Repeat("x", 300)},
			"mid":  {"abc0defg", "abc1defg", "abc\x00defg", "abcdefg", strings.Repeat("x", 300) + "0" + strings.Repeat("x", 300), strings.Repeat("x", 300) + "1" + strings.Repeat("x", 300)},
			"fold": {"ab", "ba", "aab", "aba", "baa", "abab", "a", "aa", "aaa", "b", "bb", "", "\x00", "\x00\x00", "0", "1", "A", "B", "\u00e9", "e\u0301"},
		}[f] {
			add(any(s).(K))
		}
		return r
	}
	w := uint(8 * reflect.TypeOf(z).Size())
	bits := func(x uint64) { add(fromBits[K](x, w)) }
	var base uint64 = 0x1234567812345678 >> (64 - w)
	switch f {
	case "far":
		for i := uint64(1); i < 7; i++ {
			bits(i * 0x9E3779B97F4A7C15 >> (64 - w))
		}
	case "near":
		for i := uint64(0); i < 8; i++ {
			bits(base + i)
		}
	case "high":
		bits(base)
		for i := uint(1); i < 8; i++ {
			bits(base ^ 1<<(w-i))
		}
	case "mid":
		bits(base)
		for i := w / 4; i < w-2; i += w/16 + 1 {
			bits(base ^ 1<<i)
		}
	case "fold":
		h := w / 2
		for _, a := range []uint64{3, 5, 9} {
			for _, b := range []uint64{3, 5, 9, 0} {
				bits(a<<h | b)
				bits(b<<h | a)
			}
		}
	}
	return r
}

var placed = map[string]any{}
var placedMu sync.Mutex

func newLhm[K hkey, V any](c map[string]string, cands []K, v vals[V]) obj {
	n, _ := strconv.Atoi(c["cap"])
	s, _ := strconv.Atoi(c["seg"])
	ns := s
	if n < s {
		ns = n
	}
	ck := fmt.Sprint(c["conc"], ns)
	if c["fam"] != "" {
		cands = family[K](c["fam"])
		ck += c["fam"]
	}
	placedMu.Lock()
	k, ok := placed[ck].(keys[K])
	if !ok {
		k = place(ns, cands)
		placed[ck] = k
	}
	placedMu.Unlock()
	if s == 64 { // the number of segments of NewLimitHashMap
		return &lhmObj[K, V]{hashmap.NewLimitHashMap[K, V](n), k, v}
	}
	return &lhmObj[K, V]{hashmap.NewLimitHashMapWithSegment[K, V](n, s), k, v}
}

// Collide are strings with equal FNV-1a 64 hashes.
var Collide = []string{
	"892b29d4e6a26cd0", "3ba741f850649a3a",
	"b44f305fbcb212ef", "19b3b114f497bdf0",
	"1076cd50deb8b785", "e67a1a3b02537e61",
	"9deeac1db8f020d0", "8b797c1191224dc9",
	"821a64edc19e3295", "f0248af585022bfe",
	"98854d1380e2506c", "1725b57f74f71cb0",
	"a51891f0cf6ef9fd", "eab0e474b1aa1682",
	"8a97694eb1e58765", "16510038b795c6a7",
	"6222dc5cd3dc8532", "722a9b214465dbc7",
	"d4b088bfc6ae598c", "4144554cb50f23b4",
	"7530b04fd3a5fd03", "497f78cebcd40403",
	"3f420eb6e75ab942", "3f1b2bd76b1bdd8c",
}

func mkLhm(c map[string]string) obj {
	switch c["conc"] {
	case "str":
		ks := append(append([]string{}, Collide...), "", "a", "\x00", "日本", strings.Repeat("y", 200))
		for i := 0; i < 20; i++ {
			ks = append(ks, fmt.Sprint("key", i))
		}
		return newLhm(c, ks, strVals)
	case "f64":
		ks := []float64{0, 1, -1, math.Inf(1), math.MaxFloat64, 0.1, math.SmallestNonzeroFloat64}
		for i := 2; i < 30; i++ {
			ks = append(ks, math.Float64frombits(uint64(i)*1000003))
		}
		return newLhm(c, ks, ptrVals)
	case "f32":
		ks := []float32{0, 1, -1, float32(math.Inf(1)), math.MaxFloat32, 0.1}
		for i := 2; i < 3000; i++ {
			if f := math.Float32frombits(uint32(i) * 65537); f == f && len(ks) < 60 {
				ks = append(ks, f)
			}
		}
		return newLhm(c, ks, anyVals)
	case "int":
		return newLhm(c, ints(func(x int64) int { return int(x) }, false), anyVals)
	case "i8":
		return newLhm(c, ints(func(x int64) int8 { return int8(x) }, false), anyVals)
	case "i16":
		return newLhm(c, ints(func(x int64) int16 { return int16(x) }, false), anyVals)
	case "i32":
		return newLhm(c, ints(func(x int64) int32 { return int32(x) }, false), errVals)
	case "u8":
		return newLhm(c, ints(func(x int64) uint8 { return uint8(x) }, false), anyVals)
	case "u16":
		return newLhm(c, ints(func(x int64) uint16 { return uint16(x) }, false), anyVals)
	case "u32":
		return newLhm(c, ints(func(x int64) uint32 { return uint32(x) }, false), anyVals)
	case "u64":
		return newLhm(c, ints(func(x int64) uint64 { return uint64(x) }, false), anyVals)
	case "uint":
		return newLhm(c, ints(func(x int64) uint { return uint(x) }, false), anyVals)
	case "uptr":
		return newLhm(c, ints(func(x int64) uintptr { return uintptr(x) }, false), anyVals)
	}
	return newLhm(c, ints(func(x int64) int64 { return x }, false), anyVals)
}

// ---------- Consistenthash ----------

type ringObj struct {
	h     *hashmap.Consistenthash
	node  keys[int64]
	probe map[string]int64
	pstr  map[string]string
}

func (o *ringObj) nd(n int64, ok bool) []string {
	if !ok {
		if n != 0 {
			return []string{o.node.from(n), "f"}
		}
		return []string{"-", "f"}
	}
	return []string{o.node.from(n), "t"}
}

func (o *ringObj) Do(op []string) []string {
	switch op[0] {
	case "add":
		ks := []int64{}
		for _, k := range op[1:] {
			ks = append(ks, o.node.to(k))
		}
		o.h.Add(ks...)
		return nil
	case "del":
		o.h.Del(o.node.to(op[1]))
		return nil
	case "get":
		return o.nd(o.h.Get(o.probe[op[1]]))
	case "getstr":
		return o.nd(o.h.GetStr(o.pstr[op[1]]))
	case "next":
		n, _ := strconv.Atoi(op[2])
		ns, ok := o.h.GetNextNodeStr(o.pstr[op[1]], n)
		r := []string{b(ok)}
		for _, x := range ns {
			r = append(r, o.node.from(x))
		}
		return r
	case "nodes":
		ns := o.h.Nodes()
		names := map[string]int{}
		for _, x := range ns {
			names[o.node.from(x)]++
		}
		r := []string{}
		for _, nm := range []string{"1", "2", "3", "4"} {
			for i := 0; i < names[nm]; i++ {
				r = append(r, nm)
			}
			delete(names, nm)
		}
		for k := range names {
			r = append(r, k)
		}
		return r
	}
	panic("driver: op " + op[0])
}

// pref returns the order in which the nodes own a key when the owners are deleted one by one.
func pref(repl int, nodes []int64, get func(*hashmap.Consistenthash) (int64, bool)) string {
	r := ""
	for len(nodes) > 0 {
		h := hashmap.NewConsistenthash(repl)
		h.Add(nodes...)
		o, ok := get(h)
		if !ok {
			return ""
		}
		rest := []int64{}
		for _, n := range nodes {
			if n != o {
				rest = append(rest, n)
			}
		}
		if len(rest) == len(nodes) {
			return ""
		}
		r += fmt.Sprint(o, ",")
		nodes = rest
	}
	return r
}

var ringCache = map[string]*ringObj{}

// mkRing: cfg prefs is like "p1:123 p2:231"; finds nodes and keys with those preferences.
func mkRing(c map[string]string) obj {
	repl, _ := strconv.Atoi(c["repl"])
	ck := c["repl"] + "|" + c["prefs"] + "|" + c["seed"] + "|" + c["fam"]
	if o := ringCache[ck]; o != nil {
		return &ringObj{hashmap.NewConsistenthash(repl), o.node, o.probe, o.pstr}
	}
	seed, _ := strconv.ParseInt(c["seed"], 10, 64)
	rng := rand.New(rand.NewSource(seed))
	want := map[string]string{}
	n := 0
	for _, f := range strings.Fields(c["prefs"]) {
		x := strings.SplitN(f, ":", 2)
		want[x[0]] = x[1]
		n = len(x[1])
	}
	var best *ringObj
	bestN := -1
	for try := 0; try < 60; try++ {
		ids := []int64{}
		kind := try % 3
		if c["fam"] != "" {
			kind = 3
		}
		switch kind {
		case 3: // node ids that differ in some of their bits only
			b0 := rng.Int63()
			for i := 0; i < n; i++ {
				switch c["fam"] {
				case "high":
					ids = append(ids, b0&0xffffffff|(rng.Int63()-rng.Int63())<<32)
				case "low":
					ids = append(ids, b0>>16<<16|rng.Int63n(1<<16))
				case "sign":
					ids = append(ids, []int64{1 + b0%1000, -1 - b0%1000, math.MaxInt64 - b0%1000, math.MinInt64 + 1 + b0%1000}[i])
				case "digits": // the decimal form of one begins that of another
					ids = append(ids, []int64{1 + b0%9, 10 + 10*(b0%9), 11 + b0%9*10, 100 + b0%9*100}[i])
				}
			}
		case 0:
			for i := 0; i < n; i++ {
				ids = append(ids, rng.Int63()-rng.Int63())
			}
		case 1:
			b0 := int64(rng.Intn(1000))
			for i := 0; i < n; i++ {
				ids = append(ids, b0+int64(i))
			}
		default:
			ids = append(ids, 0, -1, math.MinInt64, math.MaxInt64, 7)[:n]
			rng.Shuffle(n, func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		}
		full := hashmap.NewConsistenthash(repl)
		_ = full
		o := &ringObj{node: mkKeys(numNames(n), ids), probe: map[string]int64{}, pstr: map[string]string{}}
		ord := func(s string) string {
			r := ""
			for _, ch := range s {
				r += fmt.Sprint(o.node.m[string(ch)], ",")
			}
			return r
		}
		need := map[string]string{}
		for p, w := range want {
			need[p] = ord(w)
		}
		for k := 0; k < 150 && (len(o.probe) < len(want) || len(o.pstr) < len(want)); k++ {
			x := rng.Int63() - rng.Int63()
			if k < 4 {
				x = []int64{0, -1, math.MaxInt64, math.MinInt64}[k]
			}
			s := fmt.Sprint("s", x%100000)
			if k == 0 {
				s = ""
			}
			pi := pref(repl, ids, func(h *hashmap.Consistenthash) (int64, bool) { return h.Get(x) })
			ps := pref(repl, ids, func(h *hashmap.Consistenthash) (int64, bool) { return h.GetStr(s) })
			for p, w := range need {
				if _, ok := o.probe[p]; !ok && pi == w {
					o.probe[p] = x
					break
				}
			}
			for p, w := range need {
				if _, ok := o.pstr[p]; !ok && ps == w {
					o.pstr[p] = s
					break
				}
			}
		}
		if f := len(o.probe) + len(o.pstr); f > bestN {
			bestN, best = f, o
		}
		if bestN == 2*len(want) {
			break
		}
	}
	for i, p := range []string{"p1", "p2", "p3", "p4"} {
		if _, ok := best.probe[p]; !ok {
			best.probe[p] = int64(i)
		}
		if _, ok := best.pstr[p]; !ok {
			best.pstr[p] = fmt.Sprint("x", i)
		}
	}
	ringCache[ck] = best
	return mkRing(c)
}

// ---------- random operations for long walks ----------

var gens = map[string]func(*rand.Rand, map[string]string) []string{
	"tree": func(r *rand.Rand, c map[string]string) []string {
		nk, _ := strconv.Atoi(c["nk"])
		k, v := fmt.Sprint(1+r.Intn(nk)), fmt.Sprint("v", 1+r.Intn(2))
		switch x := r.Intn(20); {
		case x < 9:
			return []string{"put", k, v}
		case x < 15:
			return []string{"del", k}
		case x < 18:
			return []string{"get", k}
		case x < 19:
			return []string{"asc", []string{"1", "5", "99"}[r.Intn(3)]}
		}
		return []string{"desc", []string{"1", "5", "99"}[r.Intn(3)]}
	},
	"map": func(r *rand.Rand, c map[string]string) []string {
		k, v := fmt.Sprint(1+r.Intn(20)), fmt.Sprint("v", r.Intn(3))
		switch x := r.Intn(20); {
		case x < 8:
			return []string{"put", k, v}
		case x < 13:
			return []string{"del", k}
		case x < 16:
			return []string{"get", k}
		case x < 18:
			return []string{"has", k}
		case x < 19 && c["l"] == "1":
			return []string{"len"}
		}
		return []string{"range"}
	},
	"lim": func(r *rand.Rand, c map[string]string) []string {
		k, v := fmt.Sprint(1+r.Intn(20)), fmt.Sprint("v", r.Intn(3))
		switch x := r.Intn(20); {
		case x < 10:
			return []string{"put", k, v}
		case x < 12:
			return []string{"del", k}
		case x < 17:
			return []string{"get", k}
		case x < 18:
			return []string{"delmulti", k, fmt.Sprint(1 + r.Intn(20)), fmt.Sprint(1 + r.Intn(20))}
		}
		return []string{"len"}
	},
	"lru": func(r *rand.Rand, c map[string]string) []string {
		k, v := fmt.Sprint(1+r.Intn(20)), fmt.Sprint("v", r.Intn(3))
		switch x := r.Intn(20); {
		case x < 9:
			return []string{"add", k, v}
		case x < 11:
			return []string{"del", k}
		case x < 12 && c["conc"] == "str":
			return []string{"delmulti", k, fmt.Sprint(1 + r.Intn(20))}
		}
		return []string{"get", k}
	},
	"lnk": func(r *rand.Rand, c map[string]string) []string {
		k, v := fmt.Sprint(1+r.Intn(20)), fmt.Sprint("v", r.Intn(3))
		switch x := r.Intn(40); {
		case x < 14:
			return []string{"put", k, v}
		case x < 18:
			return []string{"los", k, v}
		case x < 22:
			return []string{"del", k}
		case x < 28:
			return []string{"get", k}
		case x < 32:
			return []string{"mtf", k}
		case x < 34:
			return []string{"len"}
		case x < 35:
			return []string{"front"}
		case x < 36:
			return []string{"back"}
		case x < 37:
			return []string{"iter", "f"}
		case x < 38:
			return []string{"iter", "b"}
		case x < 39 && r.Intn(5) == 0:
			return []string{"iterdel", []string{"f", "b"}[r.Intn(2)]}
		case r.Intn(6) == 0:
			return []string{"clear"}
		}
		return []string{"get", k}
	},
	"lhm": func(r *rand.Rand, c map[string]string) []string {
		segs := []string{"a", "b", "c"}
		if n, _ := strconv.Atoi(c["seg"]); n < 3 {
			segs = segs[:n]
		}
		k, v := segs[r.Intn(len(segs))]+fmt.Sprint(1+r.Intn(4)), fmt.Sprint("v", r.Intn(3))
		switch x := r.Intn(40); {
		case x < 20:
			return []string{"put", k, v}
		case x < 24:
			return []string{"del", k}
		case x < 31:
			return []string{"get", k}
		case x < 35:
			return []string{"has", k}
		case x < 39:
			return []string{"len"}
		}
		return []string{"clear"}
	},
}
