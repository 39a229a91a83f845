// Driver for KeyStore and StoreAdmin of package keystore (C23, C24).
package main

import (
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/donnie4w/gofer/keystore"
	"github.com/donnie4w/gofer/zzv/drv"
	"github.com/donnie4w/gofer/zzv/vos"
	"github.com/donnie4w/gofer/zzv/vsched"
)

func num(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

var root, _ = os.MkdirTemp(os.Getenv("VSCRATCH"), "keystore")
var seq atomic.Int64

type store interface {
	Write([]byte) error
	Read() ([]byte, error)
}

// admin is what NewStoreAdmin returns
type admin interface {
	Load()
	PutAdmin(string, string, int8)
	PutClient(string, string, int8)
	PutMq(string, string, int8)
	PutOther(string, string)
	DelAdmin(string)
	DelClient(string)
	DelMq(string)
	DelOther(string)
	GetAdmin(string) (*keystore.UserBean, bool)
	GetClient(string) (*keystore.UserBean, bool)
	GetMq(string) (*keystore.UserBean, bool)
	GetOther(string) (string, bool)
	AdminList() []string
	ClientList() []string
	MqList() []string
}

type obj struct {
	cfg   map[string]string
	dir   string
	up    bool
	h     map[string]store
	names map[string]string // content -> its name
	adm   admin
	pwds  map[string]bool
}

// open opens the store: handle 1 creates it when need be.
func (x *obj) open() {
	x.up = true
	x.h = map[string]store{}
	// 1 and 2 are handles of one store, 3 one of a store in the same directory, 4 of one with the same name
	for _, k := range []string{"1", "2", "3", "4"} {
		var err error
		var s store
		switch k {
		case "1":
			s, err = keystore.NewKeyStore(x.dir, "store")
		case "2":
			s, err = keystore.LoadKeyStore(x.dir, "store")
		case "3":
			s, err = keystore.NewKeyStore(x.dir, "store2")
		case "4":
			s, err = keystore.NewKeyStore(x.dir+"2", "store")
		}
		if err != nil {
			panic(err)
		}
		x.h[k] = s
	}
	if x.cfg["kind"] == "admin" {
		x.global()
		x.adm = keystore.NewStoreAdmin()
		x.adm.Load()
	}
}

func (x *obj) global() {
	reflect.ValueOf(&keystore.KeyStore).Elem().Set(reflect.ValueOf(x.h["1"]))
}

func newObj(cfg map[string]string) any {
	d := fmt.Sprintf("%s/d%d", root, seq.Add(1)%1024)
	x := &obj{cfg: cfg, dir: d + "/sub", names: map[string]string{}, pwds: map[string]bool{}}
	os.RemoveAll(d)
	vos.Before, vos.After = nil, nil
	dead = false
	x.open()
	return x
}

func (x *obj) content(name string) []byte {
	f := strings.SplitN(name, ":", 2)
	tok, n := num(f[0]), num(f[1])
	b := make([]byte, n)
	if tok > 100 { // contents that are encodings themselves
		rng := rand.New(rand.NewSource(int64(tok)))
		for i := range b {
			b[i] = "abcdefgh01\r\n\x00 "[rng.Intn(14)]
		}
		b = encoded(tok-100, b)
	} else if tok%2 == 0 || n < 8 {
		for i := range b {
			b[i] = byte(tok)
		}
	} else {
		rand.New(rand.NewSource(int64(tok))).Read(b)
	}
	x.names[string(b)] = name
	return b
}

func encoded(kind int, b []byte) []byte {
	var w bytes.Buffer
	write := func(c io.WriteCloser, err error) []byte {
		if err != nil {
			panic(err)
		}
		c.Write(b)
		c.Close()
		return w.Bytes()
	}
	switch kind {
	case 1:
		return write(zlib.NewWriter(&w), nil)
	case 2:
		return write(zlib.NewWriterLevel(&w, 9))
	case 3:
		return write(zlib.NewWriterLevel(&w, 0))
	case 4:
		return write(gzip.NewWriter(&w), nil)
	case 5: // twice
		return encoded(1, encoded(1, b))
	case 6: // cut short
		z := encoded(1, b)
		return z[:len(z)-1]
	case 7: // only looks like one
		return append([]byte{0x78, 0x9c}, b...)
	case 8:
		return []byte(base64.StdEncoding.EncodeToString(b))
	case 9:
		j, _ := json.Marshal(map[string]string{"content": string(b)})
		return j
	}
	return append(append([]byte("\xef\xbb\xbf"), b...), "\r\n\x00"...)
}

func (x *obj) name(b []byte) string {
	if n, ok := x.names[string(b)]; ok {
		return n
	}
	return fmt.Sprintf("junk of %d bytes", len(b))
}

type crash struct{}

var dead bool

// dying runs f in a process that dies at its k-th file operation, after p permille of the
// data when that is a write.
func (x *obj) dying(k, p int, f func()) (r string) {
	n := 0
	vos.Before = func(op, path string, b []byte, off int64) (int, error, bool) {
		if dead {
			return 0, os.ErrClosed, true
		}
		if op == "readfile" {
			return 0, nil, false
		}
		n++
		if n < k {
			return 0, nil, false
		}
		dead = true
		if m := len(b) * p / 1000; m > 0 && (op == "write" || op == "writeat") {
			h, err := os.OpenFile(path, os.O_RDWR, 0)
			if err != nil {
				panic(err)
			}
			defer h.Close()
			if off < 0 {
				off = writePos(path)
			}
			h.WriteAt(b[:m], off)
		}
		panic(crash{})
	}
	defer func() {
		vos.Before, dead = nil, false
		if e := recover(); e != nil {
			if _, ok := e.(crash); !ok {
				panic(e)
			}
			x.up = false
			r = "crashed"
		}
	}()
	f()
	return "ok"
}

// writePos: the stores write to fresh or truncated files only, from the start on.
func writePos(path string) int64 {
	fi, err := os.Stat(path)
	if err != nil {
		panic(err)
	}
	return fi.Size()
}

// ---- StoreAdmin

func (x *obj) key(k string) string {
	switch x.cfg["keys"] {
	case "bin":
		return "\x00\xff" + strings.Repeat("k", num(k)) + "\xfe"
	case "uni":
		return "名前" + strings.Repeat("é", num(k))
	case "empty":
		return strings.Repeat(" ", num(k)-1)
	case "long":
		return strings.Repeat("x", 3000) + k
	case "near": // names that a trim, a case fold or a termination would take for one another
		if i := num(k) - 1; i < len(near) {
			return near[i]
		}
	}
	return "name" + k
}

var near = []string{"name", "name\x00", "Name", "name ", " name", "nam", "NAME", "name\n", "name\x00x", "\x00name", "ｎame", "name\ufeff", "name/", "name\t", "nаme", "nam\xe9", "nam\xc3\xa9", "name%00", "'name'", "\x00"}

func (x *obj) unkey(s string) string {
	for i := 1; i <= 40; i++ {
		if x.key(fmt.Sprint(i)) == s {
			return fmt.Sprint(i)
		}
	}
	return "?" + s
}

// val "p/t": password and type
func (x *obj) pwd(v string) (string, int8) {
	f := strings.SplitN(v, "/", 2)
	p := "the password " + f[0]
	switch x.cfg["keys"] {
	case "bin":
		p = "\xff\x00secret" + f[0] + "\x80"
	case "long":
		p = strings.Repeat("secret", 500) + f[0]
	case "near":
		if i := num(f[0]); i < len(near) {
			p = "pass" + near[i]
		}
	case "empty":
		if f[0] == "0" {
			p = ""
		}
	}
	if len(p) > 4 {
		x.pwds[p] = true
	}
	return p, int8(num(f[1]))
}

func (x *obj) bean(k string, b *keystore.UserBean, ok bool) string {
	if !ok || b == nil {
		if ok || b != nil {
			return "torn"
		}
		return "none"
	}
	if b.Name != x.key(k) {
		return "wrong name"
	}
	digest := b.Pwd
	vsched.Y() // a later Put leaves what was returned alone
	ty := b.Type
	for i := 0; i < 30; i++ {
		p, _ := x.pwd(fmt.Sprintf("%d/0", i))
		m := md5.Sum([]byte(p))
		if strings.ToUpper(hex.EncodeToString(m[:])) == digest {
			return fmt.Sprintf("%d/%d", i, ty)
		}
	}
	return "wrong digest"
}

func (x *obj) other(v string) string { return "value " + v + strings.Repeat("\x00é", len(v)) }

func (x *obj) put(t, k, v string) {
	p, ty := x.pwd(v)
	switch t {
	case "admin":
		x.adm.PutAdmin(x.key(k), p, ty)
	case "client":
		x.adm.PutClient(x.key(k), p, ty)
	case "mq":
		x.adm.PutMq(x.key(k), p, ty)
	case "other":
		x.adm.PutOther(x.key(k), x.other(v))
	}
}

func (x *obj) del(t, k string) {
	switch t {
	case "admin":
		x.adm.DelAdmin(x.key(k))
	case "client":
		x.adm.DelClient(x.key(k))
	case "mq":
		x.adm.DelMq(x.key(k))
	case "other":
		x.adm.DelOther(x.key(k))
	}
}

func (x *obj) get(a admin, t, k string) string {
	switch t {
	case "admin":
		b, ok := a.GetAdmin(x.key(k))
		return x.bean(k, b, ok)
	case "client":
		b, ok := a.GetClient(x.key(k))
		return x.bean(k, b, ok)
	case "mq":
		b, ok := a.GetMq(x.key(k))
		return x.bean(k, b, ok)
	}
	s, ok := a.GetOther(x.key(k))
	if !ok {
		return "none"
	}
	for i := 0; i < 30; i++ {
		for _, ty := range []int{0, 1, 5, 127, -128} {
			if v := fmt.Sprintf("%d/%d", i, ty); x.other(v) == s {
				return v
			}
		}
	}
	return "wrong value"
}

func (x *obj) list(a admin, t string) []string {
	var l []string
	switch t {
	case "admin":
		l = a.AdminList()
	case "client":
		l = a.ClientList()
	case "mq":
		l = a.MqList()
	}
	r := []string{}
	for _, k := range l {
		r = append(r, x.unkey(k))
	}
	sort.Slice(r, func(i, j int) bool {
		a, _ := strconv.Atoi(r[i])
		b, _ := strconv.Atoi(r[j])
		return a < b
	})
	return r
}

func (x *obj) dump(a admin) []string {
	r := []string{}
	for _, t := range []string{"admin", "client", "mq"} {
		for _, k := range x.list(a, t) {
			r = append(r, k+"="+x.get(a, t, k))
		}
		r = append(r, "|")
	}
	for i := 1; i <= 20; i++ {
		k := fmt.Sprint(i)
		if v := x.get(a, "other", k); v != "none" {
			r = append(r, k+"="+v)
		}
	}
	return r
}

func apply(o any, op []string) []string {
	x := o.(*obj)
	if op[0] == "reopen" || op[0] == "restart" {
		x.open()
		return []string{"ok"}
	}
	if !x.up {
		return []string{"down"}
	}
	ok := func(err error) []string {
		if err != nil {
			return []string{"err"}
		}
		return []string{"ok"}
	}
	switch op[0] {
	case "write", "cwrite":
		b := x.content(op[2])
		c := append(make([]byte, 0, len(b)+32), b...)
		var err error
		r := "ok"
		if op[0] == "cwrite" {
			r = x.dying(num(op[3]), num(op[4]), func() { err = x.h[op[1]].Write(c) })
		} else {
			err = x.h[op[1]].Write(c)
		}
		if !bytes.Equal(b, c) {
			return []string{"argument changed"}
		}
		for i := range c {
			c[i] = 0xfa
		}
		if r != "ok" {
			return []string{r}
		}
		return ok(err)
	case "read":
		b, err := x.h[op[1]].Read()
		if err != nil {
			return []string{"err"}
		}
		r := x.name(b)
		for i := range b {
			b[i] = 0xfa
		}
		return []string{r}
	case "put":
		x.put(op[1], op[2], op[3])
		return []string{"ok"}
	case "del":
		x.del(op[1], op[2])
		return []string{"ok"}
	case "cput":
		return []string{x.dying(num(op[4]), num(op[5]), func() { x.put(op[1], op[2], op[3]) })}
	case "cdel":
		return []string{x.dying(num(op[3]), num(op[4]), func() { x.del(op[1], op[2]) })}
	case "get":
		return []string{x.get(x.adm, op[1], op[2])}
	case "list":
		return x.list(x.adm, op[1])
	case "load":
		x.adm.Load()
		return []string{"ok"}
	case "fresh":
		if x.cfg["second"] == "1" { // through another handle
			reflect.ValueOf(&keystore.KeyStore).Elem().Set(reflect.ValueOf(x.h["2"]))
			defer x.global()
		}
		a := admin(keystore.NewStoreAdmin())
		a.Load()
		return x.dump(a)
	case "stored":
		b, err := os.ReadFile(x.dir + "/store")
		if err != nil {
			panic(err)
		}
		if z, err := zlib.NewReader(bytes.NewReader(b)); err == nil {
			u, _ := io.ReadAll(z)
			b = append(b, u...)
		}
		for p := range x.pwds {
			if bytes.Contains(b, []byte(p)) {
				return []string{"has a password"}
			}
		}
		return []string{"clean"}
	}
	panic("op " + op[0])
}

var sizes = []int{0, 1, 2, 10, 100, 1000, 5000, 32768, 65536, 70000, 300000}

func gen(rng *rand.Rand, cfg map[string]string) []string {
	if cfg["kind"] == "admin" {
		t := []string{"admin", "client", "mq", "other"}[rng.Intn(4)]
		k := fmt.Sprint(1 + rng.Intn([]int{3, 20}[rng.Intn(2)]))
		switch rng.Intn(12) {
		case 0, 1, 2, 3:
			return []string{"put", t, k, fmt.Sprintf("%d/%d", rng.Intn([]int{2, 30}[rng.Intn(2)]), []int{0, 1, 5, 127, -128}[rng.Intn(5)])}
		case 4, 5:
			return []string{"del", t, k}
		case 6:
			if t != "other" {
				return []string{"list", t}
			}
		case 7:
			return []string{"fresh"}
		case 8:
			return []string{[]string{"load", "restart", "stored"}[rng.Intn(3)]}
		}
		return []string{"get", t, k}
	}
	h := fmt.Sprint(1 + rng.Intn(4))
	switch rng.Intn(8) {
	case 0, 1, 2:
		n := sizes[rng.Intn(len(sizes))]
		if rng.Intn(3) == 0 {
			n = rng.Intn(3000)
		}
		tok := 1 + rng.Intn(20)
		if rng.Intn(3) == 0 {
			tok = 101 + rng.Intn(10)
		}
		if n == 0 {
			tok = 0
		}
		return []string{"write", h, fmt.Sprintf("%d:%d", tok, n)}
	case 3:
		return []string{"reopen"}
	}
	return []string{"read", h}
}

func main() {
	drv.Main(&drv.Component{New: newObj, Apply: apply, Gen: gen, Close: func(o any) { os.RemoveAll(filepath.Dir(o.(*obj).dir)) }})
}
