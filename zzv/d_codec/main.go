// Driver for the compressors, ciphers and value encodings (C25, C26, C31).
package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	athrift "github.com/apache/thrift/lib/go/thrift"
	dthrift "github.com/donnie4w/gothrift/thrift"
	"github.com/klauspost/compress/zstd"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/structpb"

	"github.com/donnie4w/gofer/compress"
	"github.com/donnie4w/gofer/keystore"
	"github.com/donnie4w/gofer/thrift"
	"github.com/donnie4w/gofer/util"
	"github.com/donnie4w/gofer/zzv/drv"
)

func num(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

// contents: "e", or "kind:length:which"; for values "v:size:which"
func content(name string) []byte {
	if name == "e" {
		return []byte{}
	}
	f := strings.Split(name, ":")
	n, w := num(f[1]), num(f[2])
	rng := rand.New(rand.NewSource(int64(w)*1000003 + int64(n)))
	b := make([]byte, n)
	switch f[0] {
	case "c": // bytes that rarely look like padding
		for i := range b {
			b[i] = byte(32 + rng.Intn(224))
		}
	case "z": // one byte over and over
		for i := range b {
			b[i] = byte(w)
		}
	case "t": // words
		s := []byte{}
		for len(s) < n {
			s = append(s, fmt.Sprintf("word%d ", rng.Intn(50))...)
		}
		copy(b, s)
	}
	return b
}

// Value is what the value encodings carry.
type Value struct {
	A int64
	B string
	C []byte
	D []int32
	E map[string]float64
	F bool
	G *Value
}

func value(name string) *Value {
	f := strings.Split(name, ":")
	if name == "e" || f[2] == "0" {
		return &Value{}
	}
	rng := rand.New(rand.NewSource(int64(num(f[2]))*7919 + int64(num(f[1]))))
	return makeValue(rng, num(f[1]), 0)
}

func makeValue(rng *rand.Rand, n, depth int) *Value {
	v := &Value{A: []int64{rng.Int63(), -rng.Int63(), math.MaxInt64, math.MinInt64, 1, -1}[rng.Intn(6)], F: rng.Intn(2) == 0}
	for i := 0; i < n; i++ {
		v.B += string([]rune{rune(33 + rng.Intn(90)), 'é', '世', 0x1F600, '"', '\\', '<', 0}[rng.Intn(8)])
		v.C = append(v.C, byte(rng.Intn(256)))
		v.D = append(v.D, []int32{int32(rng.Uint32()), math.MaxInt32, math.MinInt32, 0, -1}[rng.Intn(5)])
		if v.E == nil {
			v.E = map[string]float64{}
		}
		v.E[fmt.Sprint("k", rng.Intn(1000))] = []float64{rng.NormFloat64(), 0, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21}[rng.Intn(6)]
	}
	if depth < 3 && rng.Intn(3) > 0 {
		v.G = makeValue(rng, n/2, depth+1)
	}
	return v
}

// the same value as thrift structures, for both thrift libraries
type aValue struct{ *Value }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (v aValue) Write(ctx context.Context, p athrift.TProtocol) error {
	must(p.WriteStructBegin(ctx, "Value"))
	must(p.WriteFieldBegin(ctx, "a", athrift.I64, 1))
	must(p.WriteI64(ctx, v.A))
	must(p.WriteFieldEnd(ctx))
	must(p.WriteFieldBegin(ctx, "b", athrift.STRING, 2))
	must(p.WriteString(ctx, v.B))
	must(p.WriteFieldEnd(ctx))
	if v.C != nil {
		must(p.WriteFieldBegin(ctx, "c", athrift.STRING, 3))
		must(p.WriteBinary(ctx, v.C))
		must(p.WriteFieldEnd(ctx))
	}
	if v.D != nil {
		must(p.WriteFieldBegin(ctx, "d", athrift.LIST, 4))
		must(p.WriteListBegin(ctx, athrift.I32, len(v.D)))
		for _, x := range v.D {
			must(p.WriteI32(ctx, x))
		}
		must(p.WriteListEnd(ctx))
		must(p.WriteFieldEnd(ctx))
	}
	if v.E != nil {
		must(p.WriteFieldBegin(ctx, "e", athrift.MAP, 5))
		must(p.WriteMapBegin(ctx, athrift.STRING, athrift.DOUBLE, len(v.E)))
		for k, x := range v.E {
			must(p.WriteString(ctx, k))
			must(p.WriteDouble(ctx, x))
		}
		must(p.WriteMapEnd(ctx))
		must(p.WriteFieldEnd(ctx))
	}
	must(p.WriteFieldBegin(ctx, "f", athrift.BOOL, 6))
	must(p.WriteBool(ctx, v.F))
	must(p.WriteFieldEnd(ctx))
	if v.G != nil {
		must(p.WriteFieldBegin(ctx, "g", athrift.STRUCT, 7))
		must(aValue{v.G}.Write(ctx, p))
		must(p.WriteFieldEnd(ctx))
	}
	must(p.WriteFieldStop(ctx))
	return p.WriteStructEnd(ctx)
}

func (v aValue) Read(ctx context.Context, p athrift.TProtocol) error {
	if _, err := p.ReadStructBegin(ctx); err != nil {
		return err
	}
	for {
		_, ty, id, err := p.ReadFieldBegin(ctx)
		if err != nil {
			return err
		}
		if ty == athrift.STOP {
			break
		}
		switch {
		case id == 1 && ty == athrift.I64:
			v.A, err = p.ReadI64(ctx)
		case id == 2 && ty == athrift.STRING:
			v.B, err = p.ReadString(ctx)
		case id == 3 && ty == athrift.STRING:
			v.C, err = p.ReadBinary(ctx)
		case id == 4 && ty == athrift.LIST:
			var n int
			if _, n, err = p.ReadListBegin(ctx); err == nil {
				for i := 0; i < n && err == nil; i++ {
					var x int32
					x, err = p.ReadI32(ctx)
					v.D = append(v.D, x)
				}
			}
		case id == 5 && ty == athrift.MAP:
			var n int
			if _, _, n, err = p.ReadMapBegin(ctx); err == nil {
				v.E = map[string]float64{}
				for i := 0; i < n && err == nil; i++ {
					var k string
					var x float64
					if k, err = p.ReadString(ctx); err == nil {
						x, err = p.ReadDouble(ctx)
						v.E[k] = x
					}
				}
			}
		case id == 6 && ty == athrift.BOOL:
			v.F, err = p.ReadBool(ctx)
		case id == 7 && ty == athrift.STRUCT:
			v.G = &Value{}
			err = aValue{v.G}.Read(ctx, p)
		default:
			err = p.Skip(ctx, ty)
		}
		if err != nil {
			return err
		}
		if err = p.ReadFieldEnd(ctx); err != nil {
			return err
		}
	}
	return p.ReadStructEnd(ctx)
}

type dValue struct{ *Value }

func (v dValue) Write(ctx context.Context, p dthrift.TProtocol) error {
	must(p.WriteStructBegin(ctx, "Value"))
	must(p.WriteFieldBegin(ctx, "a", dthrift.I64, 1))
	must(p.WriteI64(ctx, v.A))
	must(p.WriteFieldEnd(ctx))
	must(p.WriteFieldBegin(ctx, "b", dthrift.STRING, 2))
	must(p.WriteString(ctx, v.B))
	must(p.WriteFieldEnd(ctx))
	if v.C != nil {
		must(p.WriteFieldBegin(ctx, "c", dthrift.STRING, 3))
		must(p.WriteBinary(ctx, v.C))
		must(p.WriteFieldEnd(ctx))
	}
	if v.D != nil {
		must(p.WriteFieldBegin(ctx, "d", dthrift.LIST, 4))
		must(p.WriteListBegin(ctx, dthrift.I32, len(v.D)))
		for _, x := range v.D {
			must(p.WriteI32(ctx, x))
		}
		must(p.WriteListEnd(ctx))
		must(p.WriteFieldEnd(ctx))
	}
	if v.E != nil {
		must(p.WriteFieldBegin(ctx, "e", dthrift.MAP, 5))
		must(p.WriteMapBegin(ctx, dthrift.STRING, dthrift.DOUBLE, len(v.E)))
		for k, x := range v.E {
			must(p.WriteString(ctx, k))
			must(p.WriteDouble(ctx, x))
		}
		must(p.WriteMapEnd(ctx))
		must(p.WriteFieldEnd(ctx))
	}
	must(p.WriteFieldBegin(ctx, "f", dthrift.BOOL, 6))
	must(p.WriteBool(ctx, v.F))
	must(p.WriteFieldEnd(ctx))
	if v.G != nil {
		must(p.WriteFieldBegin(ctx, "g", dthrift.STRUCT, 7))
		must(dValue{v.G}.Write(ctx, p))
		must(p.WriteFieldEnd(ctx))
	}
	must(p.WriteFieldStop(ctx))
	return p.WriteStructEnd(ctx)
}

func (v dValue) Read(ctx context.Context, p dthrift.TProtocol) error {
	if _, err := p.ReadStructBegin(ctx); err != nil {
		return err
	}
	for {
		_, ty, id, err := p.ReadFieldBegin(ctx)
		if err != nil {
			return err
		}
		if ty == dthrift.STOP {
			break
		}
		switch {
		case id == 1 && ty == dthrift.I64:
			v.A, err = p.ReadI64(ctx)
		case id == 2 && ty == dthrift.STRING:
			v.B, err = p.ReadString(ctx)
		case id == 3 && ty == dthrift.STRING:
			v.C, err = p.ReadBinary(ctx)
		case id == 4 && ty == dthrift.LIST:
			var n int
			if _, n, err = p.ReadListBegin(ctx); err == nil {
				for i := 0; i < n && err == nil; i++ {
					var x int32
					x, err = p.ReadI32(ctx)
					v.D = append(v.D, x)
				}
			}
		case id == 5 && ty == dthrift.MAP:
			var n int
			if _, _, n, err = p.ReadMapBegin(ctx); err == nil {
				v.E = map[string]float64{}
				for i := 0; i < n && err == nil; i++ {
					var k string
					var x float64
					if k, err = p.ReadString(ctx); err == nil {
						x, err = p.ReadDouble(ctx)
						v.E[k] = x
					}
				}
			}
		case id == 6 && ty == dthrift.BOOL:
			v.F, err = p.ReadBool(ctx)
		case id == 7 && ty == dthrift.STRUCT:
			v.G = &Value{}
			err = dValue{v.G}.Read(ctx, p)
		default:
			err = p.Skip(ctx, ty)
		}
		if err != nil {
			return err
		}
		if err = p.ReadFieldEnd(ctx); err != nil {
			return err
		}
	}
	return p.ReadStructEnd(ctx)
}

func (v *Value) any() any {
	d := []any{}
	for _, x := range v.D {
		d = append(d, float64(x))
	}
	e := map[string]any{}
	for k, x := range v.E {
		e[k] = x
	}
	m := map[string]any{"a": fmt.Sprint(v.A), "b": v.B, "c": fmt.Sprint(v.C), "d": d, "e": e, "f": v.F}
	if v.G != nil {
		m["g"] = v.G.any()
	}
	return m
}

var keys = map[string][2][]byte{} // name -> public and private PEM
var dir, _ = os.MkdirTemp(os.Getenv("VSCRATCH"), "codec")

func init() {
	k, err := rsa.GenerateKey(crand.Reader, 2048)
	must(err)
	pub, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
	must(err)
	blk := func(t string, b []byte) []byte { return pem.EncodeToMemory(&pem.Block{Type: t, Bytes: b}) }
	p1 := [2][]byte{blk("PUBLIC KEY", pub), blk("RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k))}
	keys["p1"] = p1
	must(os.WriteFile(dir+"/p1.pub", p1[0], 0600))
	must(os.WriteFile(dir+"/p1.pri", p1[1], 0600))
	must(os.MkdirAll(dir+"/adir", 0700))
	keys["nil"] = [2][]byte{nil, nil}
	keys["empty"] = [2][]byte{{}, {}}
	keys["junk"] = [2][]byte{[]byte("this is no key"), []byte("this is no key")}
	keys["crossed"] = [2][]byte{p1[1], p1[0]}
	ec, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	ep, err := x509.MarshalPKIXPublicKey(&ec.PublicKey)
	must(err)
	es, err := x509.MarshalECPrivateKey(ec)
	must(err)
	keys["ec"] = [2][]byte{blk("PUBLIC KEY", ep), blk("EC PRIVATE KEY", es)}
	keys["damaged"] = [2][]byte{blk("PUBLIC KEY", pub[:len(pub)/2]), blk("RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k)[:300])}
}

// file of a key used by path
func file(key string, pri bool) string {
	switch key {
	case "def":
		return ""
	case "nofile":
		return dir + "/nothing"
	case "dir":
		return dir + "/adir"
	}
	if pri {
		return dir + "/p1.pri"
	}
	return dir + "/p1.pub"
}

func isValue(c string) bool {
	switch c {
	case "json", "gob", "uthrift", "thrift", "proto":
		return true
	}
	return false
}

var aesLong = strings.Repeat("a long key ", 40)

func aesKey(c byte) string {
	switch c {
	case 'n':
		return ""
	case 'l':
		return aesLong
	case 'u':
		return "ключ世界"
	case '0':
		return "aa"
	case 'P', 'Q', 'R':
		return strings.Repeat("0123456789", 7) + string(c) // (equal at the start)
	case 'p', 'q':
		return string(c) + strings.Repeat("0123456789", 7) // (equal at the end)
	case 't':
		return "a\n"
	case 'o':
		return "a\x00"
	case 'z':
		return "a\x00a"
	case '/', ':', '|', ',', '-', '_', '.', ' ', '+', '#', ';', '=', '@':
		return "a" + string(c) + "a" // (with "a" and joined by c it reads the same in both orders)
	}
	return string(c)
}

type slot struct {
	b    []byte // encoded
	orig []byte // copy of b
	out  any    // decoded
	has  bool
}

type obj struct {
	slots map[string]*slot
	names map[string]string // content -> its name
	vals  map[string]*Value
	aes   map[string]*keystore.Aes
}

func newObj(cfg map[string]string) any {
	return &obj{slots: map[string]*slot{}, names: map[string]string{}, vals: map[string]*Value{}, aes: map[string]*keystore.Aes{}}
}

var amu sync.Mutex

func (x *obj) cipher(k string) *keystore.Aes {
	amu.Lock()
	defer amu.Unlock()
	if x.aes[k] == nil {
		x.aes[k] = keystore.NewAes(aesKey(k[0]), aesKey(k[1]))
	}
	return x.aes[k]
}

func (x *obj) encode(c, k string, in []byte, v *Value) ([]byte, error) {
	switch c {
	case "zlib":
		return compress.Zlib(in)
	case "zliblevel":
		return compress.ZlibLevel(in, num(k))
	case "uzlib":
		return util.Zlib(in)
	case "gzip":
		return compress.Gzip(in)
	case "ugzip":
		b, err := util.Gzip(in)
		return b.Bytes(), err
	case "snappy":
		return compress.Snappy(in), nil
	case "usnappy":
		return util.SnappyEncode(in), nil
	case "zstd":
		return compress.Zstd(in)
	case "zstdlevel":
		return compress.ZstdLevel(in, zstd.EncoderLevel(1+num(k)&3))
	case "aes":
		return x.cipher(k).EncrypterCbc(in)
	case "aesf":
		return keystore.AesEncrypter(in, aesKey(k[0]))
	case "rsa":
		if p, ok := keys[k]; ok {
			return keystore.RsaEncryptByBytes(in, p[0])
		}
		return keystore.RsaEncrypt(in, file(k, false))
	case "json":
		return util.JsonEncode(v), nil
	case "gob":
		return util.Encode(v)
	case "uthrift":
		return util.TEncode(dValue{v}), nil
	case "thrift":
		return thrift.TEncode(aValue{v}), nil
	case "proto":
		s, err := structpb.NewValue(v.any())
		must(err)
		return util.Marshal(s), nil
	}
	panic("codec " + c)
}

func (x *obj) decode(c, k string, in []byte) (any, error) {
	switch c {
	case "zlib", "zliblevel":
		return compress.UnZlib(in)
	case "uzlib":
		return util.UnZlib(in)
	case "gzip":
		return compress.UnGzip(in)
	case "ugzip":
		b, err := util.UnGzip(in)
		return b.Bytes(), err
	case "snappy":
		return compress.UnSnappy(in)
	case "usnappy":
		return util.SnappyDecode(in), nil
	case "zstd", "zstdlevel":
		return compress.UnZstd(in)
	case "aes":
		return x.cipher(k).DecrypterCbc(in)
	case "aesf":
		return keystore.AesDecrypter(in, aesKey(k[0]))
	case "rsa":
		if p, ok := keys[k]; ok {
			return keystore.RsaDecryptByBytes(in, p[1])
		}
		return keystore.RsaDecrypt(in, file(k, true))
	case "json":
		v, err := util.JsonDecode[Value](in)
		return &v, err
	case "gob":
		return util.Decode[Value](in)
	case "uthrift":
		v, err := util.TDecode(in, dValue{&Value{}})
		return v.Value, err
	case "thrift":
		v, err := thrift.TDecode(in, aValue{&Value{}})
		return v.Value, err
	case "proto":
		var s structpb.Value
		err := util.Unmarshal(in, &s)
		return &s, err
	}
	panic("codec " + c)
}

func cls(b []byte) string {
	if len(b) == 0 {
		return "zero"
	}
	if len(b)%16 == 0 {
		return "16"
	}
	return "odd"
}

// name of what was decoded
func (x *obj) name(d any) string {
	switch d := d.(type) {
	case []byte:
		if len(d) == 0 {
			return "e"
		}
		if n, ok := x.names[string(d)]; ok {
			return n
		}
	case *Value:
		if d == nil {
			return "e"
		}
		for n, v := range x.vals {
			if reflect.DeepEqual(v, d) {
				return n
			}
		}
	case *structpb.Value:
		for n, v := range x.vals {
			s, _ := structpb.NewValue(v.any())
			if proto.Equal(s, d) {
				return n
			}
		}
	}
	return "other"
}

var spares atomic.Int64

// spare returns d with spare capacity, and a check that nothing of it changed.
func spare(d []byte) ([]byte, func() string) {
	n := []int{64, 0, 200, 7, 5000, len(d) + 1024, 1}[spares.Add(1)%7]
	all := make([]byte, len(d)+n)
	copy(all, d)
	for i := len(d); i < len(all); i++ {
		all[i] = 0xA5
	}
	sum := sha256.Sum256(all)
	return all[:len(d)], func() string {
		if sha256.Sum256(all) == sum {
			return "same"
		}
		return "changed"
	}
}

func apply(o any, op []string) []string {
	x := o.(*obj)
	switch op[0] {
	case "enc":
		i, c, k, d := op[1], op[2], op[3], op[4]
		var in []byte
		var v *Value
		check := func() string { return "same" }
		if isValue(c) {
			v = value(d)
			check = func() string {
				if reflect.DeepEqual(v, value(d)) {
					return "same"
				}
				return "changed"
			}
		} else if d != "e" {
			in, check = spare(content(d))
		} else if num(i)%2 == 0 {
			in = []byte{}
		}
		out, err := x.encode(c, k, in, v)
		if err != nil {
			return []string{"err"}
		}
		if v != nil {
			x.vals[d] = value(d)
		} else if d != "e" {
			x.names[string(content(d))] = d
		}
		r := []string{"ok", check(), cls(out)}
		// the caller may use its buffer for something else now
		for j := range in {
			in[j] ^= 0xFF
		}
		x.slots[i] = &slot{b: out, orig: bytes.Clone(out)}
		return r
	case "junk":
		i := num(op[1])
		rng := rand.New(rand.NewSource(int64(num(op[2]))))
		b := make([]byte, []int{0, 1, 2, 7, 15, 16, 17, 32, 64, 128, 256, 1000, 4096}[rng.Intn(13)])
		rng.Read(b)
		if len(b) > 0 && rng.Intn(3) == 0 {
			heads := []string{"\x78\x9c", "\x1f\x8b\x08\x00", "\x28\xb5\x2f\xfd", "{\"A\":", "\x16", "\x0a\x12"}
			copy(b, heads[rng.Intn(len(heads))])
		}
		x.slots[fmt.Sprint(i)] = &slot{b: b, orig: bytes.Clone(b)}
		return []string{cls(b)}
	case "burst":
		return []string{fmt.Sprint(x.burst(num(op[1]), num(op[2]), op[3], op[4]))}
	case "same":
		s, t := x.slots[op[1]], x.slots[op[2]]
		if s == nil || t == nil {
			return []string{"none"}
		}
		if bytes.Equal(s.b, t.b) {
			return []string{"t"}
		}
		return []string{"f"}
	}
	s := x.slots[op[1]]
	if s == nil {
		return []string{"none"}
	}
	switch op[0] {
	case "dec":
		in, check := spare(s.b)
		d, err := x.decode(op[2], op[3], in)
		r := []string{"ok", ""}
		if check() != "same" || !bytes.Equal(s.b, s.orig) {
			r = []string{"the encoded data changed"}
		} else if err != nil {
			r = []string{"err"}
			s.has = false
		} else {
			s.out, s.has = d, true
			r[1] = x.name(d)
		}
		for j := range in {
			in[j] ^= 0xFF
		}
		if r[0] == "ok" && r[1] != x.name(d) {
			r[1] = "other"
		}
		return r
	case "cut":
		if len(s.b) < 2 {
			return []string{"no"}
		}
		n := num(op[2])
		if n >= len(s.b) {
			n = 1 + n%(len(s.b)-1)
		}
		s.b = bytes.Clone(s.b[:len(s.b)-n])
		s.orig = bytes.Clone(s.b)
		return []string{cls(s.b)}
	case "grow":
		if len(s.b) == 0 {
			return []string{"no"}
		}
		g := make([]byte, 1+num(op[2])%40)
		rand.New(rand.NewSource(int64(num(op[2])))).Read(g)
		s.b = append(bytes.Clone(s.b), g...)
		s.orig = bytes.Clone(s.b)
		return []string{cls(s.b)}
	case "flip":
		skip := 0
		if bytes.HasPrefix(s.b, []byte("\x28\xb5\x2f\xfd")) {
			skip = 14 // sizes that let the decoder allocate at will
		}
		if len(s.b) <= skip {
			return []string{"no"}
		}
		s.b = bytes.Clone(s.b)
		s.b[skip+(len(s.b)-skip)*num(op[2])/1000] ^= 1 << (num(op[3]) & 7)
		s.orig = bytes.Clone(s.b)
		return []string{cls(s.b)}
	case "look":
		if !s.has {
			return []string{"none"}
		}
		return []string{x.name(s.out)}
	}
	panic("op " + op[0])
}

// burst encodes and decodes in g goroutines at the same time; returns how many of the values
// did not come back.
func (x *obj) burst(g, n int, c, k string) int {
	var wg sync.WaitGroup
	bad := make([]int, g)
	start := make(chan bool)
	for i := range bad {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(int64(i)))
			type kept struct {
				in  []byte
				v   *Value
				out any
			}
			var hold []kept
			<-start
			for j := 0; j < n; j++ {
				func() {
					defer func() {
						if recover() != nil {
							bad[i]++
						}
					}()
					d := fmt.Sprintf("c:%d:%d", 1+rng.Intn(100), i*1000+j)
					if !isValue(c) && c != "rsa" && j%5 == 0 {
						d = fmt.Sprintf("t:%d:%d", 1+rng.Intn(9000), i*1000+j)
					}
					var v *Value
					in := content(d)
					if isValue(c) {
						v = value(fmt.Sprintf("v:%d:%d", rng.Intn(20), i*1000+j))
					}
					e, err := x.encode(c, k, in, v)
					if err != nil {
						bad[i]++
						return
					}
					o, err := x.decode(c, k, e)
					if err != nil {
						bad[i]++
						return
					}
					hold = append(hold, kept{in, v, o})
					for _, h := range []kept{hold[rng.Intn(len(hold))], hold[len(hold)-1]} {
						if !same(h.in, h.v, h.out) {
							bad[i]++
						}
					}
				}()
			}
		}()
	}
	close(start)
	wg.Wait()
	sum := 0
	for _, b := range bad {
		sum += b
	}
	return sum
}

func same(in []byte, v *Value, out any) bool {
	switch d := out.(type) {
	case []byte:
		return bytes.Equal(d, in)
	case *Value:
		return reflect.DeepEqual(d, v)
	case *structpb.Value:
		s, _ := structpb.NewValue(v.any())
		return proto.Equal(s, d)
	}
	return false
}

var aesKeys = []string{"aa", "ab", "ba", "bb", "na", "an", "nn", "ll", "lu", "uu"}
var rsaKeys = []string{"def", "p1", "file", "junk", "empty", "nil", "ec", "damaged", "nofile", "dir", "crossed"}

func codecsOf(cfg map[string]string) []string { return strings.Split(cfg["codecs"], ",") }

func keyOf(rng *rand.Rand, c string) string {
	switch c {
	case "aes":
		if rng.Intn(3) == 0 {
			near := "a0PQRpqtozA/:|,-_. +#;=@"
			return string(near[rng.Intn(len(near))]) + string(near[rng.Intn(len(near))])
		}
		return aesKeys[rng.Intn(len(aesKeys))]
	case "aesf":
		return []string{"aa", "bb", "nn", "ll", "uu"}[rng.Intn(5)]
	case "rsa":
		if rng.Intn(3) > 0 {
			return rsaKeys[rng.Intn(3)]
		}
		return rsaKeys[rng.Intn(len(rsaKeys))]
	case "zliblevel":
		return fmt.Sprint(rng.Intn(13) - 3)
	}
	return fmt.Sprint(rng.Intn(4))
}

func contentOf(rng *rand.Rand, c string) (string, string) {
	if rng.Intn(12) == 0 && !isValue(c) {
		return "e", "0"
	}
	n := []int{1, 2, 5, 15, 16, 17, 31, 32, 33, 48, 100, 117, 118, 245, 246, 255, 256, 1000, 4096}[rng.Intn(19)]
	switch {
	case isValue(c):
		n = rng.Intn(12)
		w := rng.Intn(5)
		if w == 0 {
			n = 0
		}
		return fmt.Sprintf("v:%d:%d", n, w), fmt.Sprint(n)
	case c == "rsa":
		return fmt.Sprintf("c:%d:%d", n, 1+rng.Intn(4)), fmt.Sprint(n)
	}
	if rng.Intn(6) == 0 {
		n = []int{32767, 32768, 65535, 65536, 65537, 131072, 300000}[rng.Intn(7)] + rng.Intn(3)
	}
	kind := []string{"c", "t", "z"}[rng.Intn(3)]
	w := 1 + rng.Intn(4)
	if kind == "z" {
		w = []int{0, 1, 2, 15, 16, 17, 255}[rng.Intn(7)]
	}
	if kind != "c" && n < 20 && kind != "z" {
		kind = "c"
	}
	return fmt.Sprintf("%s:%d:%d", kind, n, w), fmt.Sprint(n)
}

// the last codec and key a slot was filled with, as gen made the operations
var lastOf = map[string][2]string{}

func gen(rng *rand.Rand, cfg map[string]string) []string {
	cs := codecsOf(cfg)
	i := fmt.Sprint(1 + rng.Intn(6))
	c := cs[rng.Intn(len(cs))]
	k := keyOf(rng, c)
	l, ok := lastOf[i]
	switch p := rng.Intn(20); {
	case p < 6 || !ok:
		lastOf[i] = [2]string{c, k}
		d, n := contentOf(rng, c)
		return []string{"enc", i, c, k, d, n}
	case p < 13:
		if rng.Intn(4) > 0 && l[0] != "junk" {
			c, k = l[0], l[1]
		} else if (strings.Contains(c, "snappy") || strings.Contains(l[0], "snappy")) && !(strings.Contains(c, "snappy") && strings.Contains(l[0], "snappy")) {
			return []string{"look", i} // sizes that let the decoder allocate at will
		}
		return []string{"dec", i, c, k}
	case p < 14:
		return []string{"cut", i, fmt.Sprint([]int{1, 1, 2, 4, 8, 15, 16, 17, 32, 1 + rng.Intn(200)}[rng.Intn(10)])}
	case p < 15:
		if strings.Contains(l[0], "snappy") {
			return []string{"look", i}
		}
		return []string{"flip", i, fmt.Sprint([]int{rng.Intn(1000), 999 - rng.Intn(20)}[rng.Intn(2)]), fmt.Sprint(rng.Intn(8))}
	case p < 16:
		return []string{"grow", i, fmt.Sprint(rng.Intn(1000))}
	case p < 17:
		if strings.Contains(strings.Join(cs, ","), "snappy") {
			return []string{"look", i}
		}
		lastOf[i] = [2]string{"junk", ""}
		return []string{"junk", i, fmt.Sprint(rng.Intn(1000000))}
	case p < 18:
		return []string{"same", i, fmt.Sprint(1 + rng.Intn(6))}
	}
	return []string{"look", i}
}

// focus: contents encoded and decoded by one codec.
func focus(rng *rand.Rand, cfg map[string]string, c string) (r [][]string) {
	for n := 0; n < 6; n++ {
		i := fmt.Sprint(1 + n%3)
		k := keyOf(rng, c)
		d, l := contentOf(rng, c)
		r = append(r, []string{"enc", i, c, k, d, l}, []string{"dec", i, c, k})
	}
	return
}

func main() {
	drv.Main(&drv.Component{New: newObj, Apply: apply, Gen: gen, Kinds: codecsOf, Focus: focus})
	os.RemoveAll(dir)
}
