// Driver for the helpers of package util, util's checksums and fast.StringToSlice (C32).
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/donnie4w/gofer/base58"
	"github.com/donnie4w/gofer/fast"
	"github.com/donnie4w/gofer/util"
	"github.com/donnie4w/gofer/uuid"
	"github.com/donnie4w/gofer/zzv/drv"
)

type obj struct{ dir string }

func newObj(cfg map[string]string) any {
	if cfg["k"] == "hash" { // (no files)
		return &obj{}
	}
	d, err := os.MkdirTemp(os.Getenv("VSCRATCH"), "u")
	if err != nil {
		panic(err)
	}
	os.Mkdir(filepath.Join(d, "dir"), 0o755)
	os.Symlink("f0", filepath.Join(d, "link"))
	return &obj{dir: d}
}

func num(s string) int { n, err := strconv.Atoi(s); must(err); return n }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func tf(x bool) string {
	if x {
		return "t"
	}
	return "f"
}

// limbs writes a number as its four 16-bit limbs.
func limbs(n uint64) []string {
	r := []string{}
	for i := 3; i >= 0; i-- {
		r = append(r, fmt.Sprint(n>>(16*i)&0xffff))
	}
	return r
}

func number(q []string) (n uint64) {
	for _, x := range q {
		n = n<<16 | uint64(num(x))
	}
	return
}

// content is the content that a size names.
func content(n int) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(n))).Read(b)
	return b
}

func be32(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }
func be64(n uint64) []byte { return append(be32(uint32(n>>32)), be32(uint32(n))...) }

// digest also checks that the input is left alone and that the string variants agree.
func digest(kind string, in []byte) string {
	keep := append([]byte(nil), in...)
	var r []byte
	extra := ""
	switch kind {
	case "crc8":
		r = []byte{util.CRC8(in)}
	case "crc32":
		r = be32(util.CRC32(in))
	case "crc64":
		r = be64(util.CRC64(in))
	case "fnv32":
		r = be32(util.FNVHash32(in))
	case "fnv64":
		r = be64(util.FNVHash64(in))
	case "md5":
		r = util.MD5(in)
		extra = util.Md5Str(string(in))
	case "sha1":
		r = util.SHA1(in)
		extra = util.Sha1Str(string(in))
	case "blake":
		var err error
		if r, err = util.Blake2b(in); err != nil {
			return "err " + err.Error()
		}
	default:
		return ""
	}
	s := hex.EncodeToString(r)
	if extra != "" && extra != strings.ToUpper(s) {
		s += " but " + extra
	}
	if !bytes.Equal(keep, in) {
		s += " input changed"
	}
	return s
}

var kinds = []string{"crc8", "crc32", "crc64", "fnv32", "fnv64", "md5", "sha1", "blake"}

func together(g, n int, f func(i, k int)) {
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				f(i, k)
			}
		}()
	}
	wg.Wait()
}

func caught(f func(), before error) (err error) {
	err = before
	func() {
		defer util.Recover(&err)
		f()
	}()
	return
}

func apply(o any, op []string) []string {
	x := o.(*obj)
	path := func(s string) string {
		if s == "" {
			return ""
		}
		return filepath.Join(x.dir, filepath.FromSlash(s))
	}
	a := op[1:]
	switch op[0] {
	case "concat":
		return []string{util.Concat(a...)}
	case "slice":
		b := fast.StringToSlice(a[0])
		if len(b) != len(a[0]) {
			return []string{"length", fmt.Sprint(len(b))}
		}
		runtime.GC()
		return []string{string(b)}
	case "rand":
		return []string{fmt.Sprint(util.RandUint(uint(num(a[0]))))}
	case "randbig":
		n, err := util.RandInt64Strict(int64(number(a[:4])))
		if err != nil {
			return []string{"err"}
		}
		return append([]string{"ok"}, limbs(uint64(n))...)
	case "spread":
		n := num(a[0])
		s1, s2 := map[uint]bool{}, map[int64]bool{}
		for k := 0; k < 4000 && (len(s1) < n || len(s2) < n); k++ {
			s1[util.RandUint(uint(n))] = true
			if v, err := util.RandInt64Strict(int64(n)); err == nil {
				s2[v] = true
			}
		}
		if len(s1) == n && len(s2) == n {
			return []string{"all"}
		}
		return []string{fmt.Sprint(len(s1)), fmt.Sprint(len(s2))}
	case "uuid64":
		n := num(a[0])
		var mu sync.Mutex
		seen := map[int64]bool{}
		together(4, n, func(int, int) {
			v := util.UUID64()
			mu.Lock()
			seen[v] = true
			mu.Unlock()
		})
		if len(seen) == 4*n {
			return []string{"distinct"}
		}
		return []string{fmt.Sprint(len(seen), " of ", 4*n)}
	case "hash64":
		n := num(a[0])
		by := map[uint64]int{}
		for k := 0; k < n; k++ {
			by[util.Hash64(content(k))] = k
		}
		if len(by) != n {
			return []string{"collision"}
		}
		var mu sync.Mutex
		bad := 0
		together(4, n, func(i, k int) {
			if h, ok := by[util.Hash64(append([]byte(nil), content(k)...))]; !ok || h != k {
				mu.Lock()
				bad++
				mu.Unlock()
			}
		})
		if bad > 0 {
			return []string{fmt.Sprint(bad, " differ")}
		}
		return []string{"by content"}
	case "base58":
		for k := 0; k < num(a[0]); k++ {
			u := uuid.NewUUID()
			if n, ok := base58.DecodeForInt64(u.Base58()); !ok || n != uint64(u.Int64()) {
				return []string{"other number", u.String()}
			}
		}
		return []string{"same number"}
	case "digests":
		// the digests of one content, computed by goroutines in parallel, do not disturb each other
		n := num(a[0])
		want := map[string]string{}
		for k := 0; k < n; k++ {
			for _, kd := range kinds {
				want[kd+fmt.Sprint(k)] = digest(kd, content(k))
			}
		}
		var mu sync.Mutex
		bad := map[string]int{}
		together(8, n, func(i, k int) {
			for _, kd := range kinds {
				if digest(kd, content(k)) != want[kd+fmt.Sprint(k)] {
					mu.Lock()
					bad[kd]++
					mu.Unlock()
				}
			}
		})
		if len(bad) == 0 {
			return []string{"the same"}
		}
		return []string{fmt.Sprint(bad)}
	case "time":
		t, err := util.StrToTimeFormat(fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", num(a[0]), num(a[1]), num(a[2]), num(a[3]), num(a[4]), num(a[5])))
		return at(t, err)
	case "timebad":
		return at(util.StrToTimeFormat(a[0]))
	case "put":
		must(os.WriteFile(path(a[0]), content(num(a[1])), 0o644))
		return []string{"ok"}
	case "rm":
		if err := os.Remove(path(a[0])); err != nil && !os.IsNotExist(err) {
			panic(err)
		}
		return []string{"ok"}
	case "exist":
		return []string{tf(util.IsFileExist(path(a[0])))}
	case "read":
		b, err := util.ReadFile(path(a[0]))
		if err != nil {
			return []string{"err"}
		}
		if !bytes.Equal(b, content(len(b))) {
			return []string{"ok", "other bytes", fmt.Sprint(len(b))}
		}
		// the bytes are the caller's own
		for i := range b {
			b[i] ^= 0xff
		}
		c, err := util.ReadFile(path(a[0]))
		if err != nil || !bytes.Equal(c, content(len(b))) {
			return []string{"shared"}
		}
		return []string{"ok", fmt.Sprint(len(b))}
	case "match":
		i := 1
		for a[i] != "/" {
			i++
		}
		p, t := regexp.QuoteMeta(strings.Join(a[1:i], "")), strings.Join(a[i+1:], "")
		switch a[0] {
		case "any":
			p = strings.ReplaceAll(p, `\.`, ".")
		case "full":
			p = "^" + p + "$"
		case "star":
			p = "^(" + p + ")*$"
		case "bad":
			p = "(" + p
		}
		return []string{tf(util.MatchString(p, t))}
	case "recover":
		var err error
		switch a[0] {
		case "none":
			err = caught(func() {}, nil)
		case "nilptr":
			func() {
				defer util.Recover(nil)
				var m map[string]int
				m["a"] = 1
			}()
			return []string{"survived"}
		case "again":
			err = caught(func() { panic("second") }, fmt.Errorf("first"))
		case "kept":
			err = caught(func() {}, fmt.Errorf("first"))
		default:
			err = caught(func() { panic(a[0]) }, nil)
		}
		if err == nil {
			return []string{"no error"}
		}
		return []string{err.Error()}
	case "gz":
		var b []byte
		switch a[0] {
		case "gzip":
			z, err := util.Gzip(content(300))
			must(err)
			b = z.Bytes()
		case "short":
			z, err := util.Gzip(content(300))
			must(err)
			b = z.Bytes()[:9]
		case "zlib":
			z, err := util.Zlib(content(300))
			must(err)
			b = z
		case "junk":
			b = content(300)
		}
		return []string{tf(util.CheckGzipType(b) == nil)}
	}
	in := make([]byte, len(a))
	for i, v := range a {
		in[i] = byte(num(v))
	}
	if s := digest(op[0], in); s != "" {
		return []string{s}
	}
	panic("op " + op[0])
}

func at(t time.Time, err error) []string {
	if err != nil {
		return []string{"err"}
	}
	s := t.Unix()
	d := s / 86400
	if s%86400 < 0 {
		d--
	}
	if t.Nanosecond() != 0 {
		return []string{"fraction"}
	}
	return []string{fmt.Sprint(d), fmt.Sprint(s - 86400*d)}
}

var near = []int{0, 1, 3, 4, 55, 56, 57, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 183, 184, 191, 192, 255, 256, 257}
var words = []string{"", "a", "bc", "é", "\x00", "a b", "0123456789abcdef", "zz"}

func pick(rng *rand.Rand, q []string) string { return q[rng.Intn(len(q))] }

func gen(rng *rand.Rand, cfg map[string]string) []string {
	if cfg["k"] == "hash" {
		k := kinds[rng.Intn(len(kinds))]
		if cfg["only"] != "" {
			k = cfg["only"]
		}
		n := near[rng.Intn(len(near))]
		if rng.Intn(2) == 0 {
			n = rng.Intn(300)
		}
		op := []string{k}
		switch rng.Intn(6) {
		case 0: // one value everywhere
			v := fmt.Sprint([]int{0, 255, 128, rng.Intn(256)}[rng.Intn(4)])
			for ; n > 0; n-- {
				op = append(op, v)
			}
		case 1: // text
			for ; n > 0; n-- {
				op = append(op, fmt.Sprint(32+rng.Intn(95)))
			}
		default:
			for ; n > 0; n-- {
				op = append(op, fmt.Sprint(rng.Intn(256)))
			}
		}
		return op
	}
	file := func() string { return fmt.Sprint("f", rng.Intn(3)) }
	switch rng.Intn(17) {
	case 0:
		op := []string{"concat"}
		for k := rng.Intn(6); k > 0; k-- {
			op = append(op, pick(rng, words))
		}
		return op
	case 1:
		return []string{"slice", strings.Repeat(pick(rng, words), rng.Intn(40))}
	case 2:
		return []string{"rand", fmt.Sprint(1 + rng.Intn([]int{1, 3, 300, 1 << 20}[rng.Intn(4)]))}
	case 3, 4:
		n := rng.Uint64() >> (1 + rng.Intn(63))
		if rng.Intn(3) == 0 {
			n = 1 << rng.Intn(63)
		}
		if n == 0 {
			n = 1
		}
		return append([]string{"randbig"}, limbs(n)...)
	case 5:
		return []string{"spread", fmt.Sprint(1 + rng.Intn(9))}
	case 6:
		return [][]string{{"uuid64", "500"}, {"hash64", "50"}, {"base58", "50"}, {"digests", "20"}}[rng.Intn(4)]
	case 7, 8, 9:
		r := func(a, b int) string { return fmt.Sprint(a + rng.Intn(b-a+1)) }
		y := r(1992, 2140)
		if rng.Intn(3) == 0 {
			y = pick(rng, []string{"2000", "2024", "2100", "1996", "2038", "2400", "9999"})
		}
		mo, d, h := r(1, 12), r(1, 31), r(0, 23)
		switch rng.Intn(5) {
		case 0:
			mo, d = "2", r(27, 30)
		case 1:
			mo, d, h = pick(rng, []string{"1", "12", "3"}), pick(rng, []string{"1", "31"}), r(0, 9)
		case 2:
			mo, d, h = r(0, 14), r(0, 33), r(0, 25)
		}
		return []string{"time", y, mo, d, h, r(0, 60), r(0, 60)}
	case 10:
		return []string{"timebad", pick(rng, []string{"", "2020-01-01", "2020-01-01T00:00:00", "20-01-01 00:00:00", "now", "2020-01-01 00:00:00 ", "2020/01/01 00:00:00", "2020-01-01 00:00", "-2020-01-01 00:00:00", "2020-1-01 00:00:00", "2020-01-1 00:00:00", "2020-1-1 00:00:00", "2020-01-01 00:0:00", "2020-01-01 00:00:0", "02020-01-01 00:00:00", "2020-01-01 00:00:00Z", " 2020-01-01 00:00:00", "2020-01-01 00:00:00 +0800", "2020-01-01 00:00", "2020-01-01 00:00:00 AM", "2020-Jan-01 00:00:00", "2020-01-01 00:00:00x", "2020-01-01 00-00-00"})}
	case 11:
		return []string{"put", file(), fmt.Sprint([]int{0, 1, 2, 4095, 4096, 4097, rng.Intn(20000), rng.Intn(300000)}[rng.Intn(8)])}
	case 12:
		if rng.Intn(2) == 0 {
			return []string{"rm", file()}
		}
		return []string{"gz", pick(rng, []string{"gzip", "short", "junk", "empty", "zlib"})}
	case 13, 14:
		return []string{pick(rng, []string{"exist", "read"}), pick(rng, []string{file(), file(), "link", "nowhere/x", "f0/x", ""})}
	case 15:
		op := []string{"match", pick(rng, []string{"lit", "any", "full", "star", "bad"})}
		abc := []string{"a", "b", ".", "*", "\\", "(", "+"}[:2+rng.Intn(6)]
		if rng.Intn(2) == 0 {
			abc = []string{"a", ".", "A", "\n", "\r"}
		}
		w := func(n int) (r []string) {
			for k := rng.Intn(n); k > 0; k-- {
				r = append(r, pick(rng, abc))
			}
			return
		}
		p := w(4)
		t := w(6)
		if rng.Intn(2) == 0 {
			t = append(append(append([]string{}, p...), p...), w(2)...)
		}
		return append(append(append(op, p...), "/"), t...)
	}
	return []string{"recover", pick(rng, []string{"none", "boom", "nilptr", "again", "kept"})}
}

func main() {
	drv.Main(&drv.Component{New: newObj, Apply: apply, Gen: gen, Close: func(o any) {
		if d := o.(*obj).dir; d != "" {
			os.RemoveAll(d)
		}
	}})
}
