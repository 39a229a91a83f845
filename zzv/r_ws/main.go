// Driver for websocket.Handler with real connections to a peer on the loopback network (C28).
package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha1"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/donnie4w/gofer/websocket"
	"github.com/donnie4w/gofer/zzv/drv"
)

type ev struct {
	E string   `json:"e"`
	T int      `json:"t"`
	O []string `json:"o"`
	R []string `json:"r"`
	C int64    `json:"c"`
}

type hist struct {
	Name string            `json:"name"`
	Cfg  map[string]string `json:"cfg"`
	Ev   []ev              `json:"ev"`
}

type run struct {
	sc  *drv.Scenario
	mu  sync.Mutex
	ev  []ev
	tn  int32
	bad string
	// the end of the scenario: what follows is cleaning up
	over bool
}

func (r *run) log(e string, t int, o, res []string) {
	r.mu.Lock()
	if !r.over {
		r.ev = append(r.ev, ev{e, t, o, res, 0})
	}
	r.mu.Unlock()
}

// message: id, or id:size for a longer one
func payload(id string) []byte {
	if id == "empty" {
		return []byte{}
	}
	f := strings.Split(id, ":")
	b := []byte(id + "|")
	if len(f) > 1 {
		n, _ := strconv.Atoi(f[1])
		for i := len(b); i < n; i++ {
			b = append(b, byte(i*7+len(id)+i>>8))
		}
	}
	return b
}

func id(b []byte) string {
	if len(b) == 0 {
		return "empty"
	}
	i := bytes.IndexByte(b, '|')
	if i < 0 {
		return fmt.Sprintf("corrupt:%d", len(b))
	}
	s := string(b[:i])
	if !bytes.Equal(payload(s), b) {
		return fmt.Sprintf("corrupt %s:%d", s, len(b))
	}
	return s
}

type peer struct {
	r    *run
	c    net.Conn
	raw  *net.TCPConn
	br   *bufio.Reader
	wmu  sync.Mutex
	over bool
	cut  atomic.Bool // the peer itself closed the connection
}

func (p *peer) frame(op byte, fin bool, b []byte) {
	h := []byte{op}
	if fin {
		h[0] |= 0x80
	}
	switch n := len(b); {
	case n < 126:
		h = append(h, byte(n))
	case n < 65536:
		h = append(h, 126, byte(n>>8), byte(n))
	default:
		h = binary.BigEndian.AppendUint64(append(h, 127), uint64(n))
	}
	p.c.Write(append(h, b...))
}

// read reads the frames of the client until the connection ends.
func (p *peer) read() {
	defer func() {
		p.c.Close()
		if !p.cut.Load() {
			p.r.log("peer", 0, []string{"freed"}, []string{})
		}
	}()
	var msg []byte
	for {
		h := make([]byte, 2)
		if _, err := io.ReadFull(p.br, h); err != nil {
			return
		}
		n := uint64(h[1] & 127)
		if n == 126 {
			var x [2]byte
			io.ReadFull(p.br, x[:])
			n = uint64(binary.BigEndian.Uint16(x[:]))
		} else if n == 127 {
			var x [8]byte
			io.ReadFull(p.br, x[:])
			n = binary.BigEndian.Uint64(x[:])
		}
		if h[1]&128 == 0 || n > 1<<26 {
			p.r.log("peer", 0, []string{"got", "not a frame of a client"}, []string{})
			return
		}
		var mask [4]byte
		io.ReadFull(p.br, mask[:])
		b := make([]byte, n)
		if _, err := io.ReadFull(p.br, b); err != nil {
			return
		}
		for i := range b {
			b[i] ^= mask[i&3]
		}
		switch op := h[0] & 15; op {
		case 0, 1, 2:
			msg = append(msg, b...)
			if h[0]&0x80 != 0 {
				p.r.log("peer", 0, []string{"got", id(msg)}, []string{})
				msg = nil
			}
		case 8:
			p.wmu.Lock()
			p.over = true
			p.wmu.Unlock()
		case 10:
		default:
			p.r.log("peer", 0, []string{"got", fmt.Sprint("opcode ", op)}, []string{})
		}
	}
}

func (p *peer) do(op []string) {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	p.r.log("peer", 0, op, []string{})
	switch op[0] {
	case "send":
		b := payload(op[1])
		p.frame(byte(1+len(op[1])%2), true, b)
	case "end": // orderly: the rest of what the client sends is still read
		if p.r.sc.Cfg["fin"] != "t" {
			p.frame(8, true, []byte{3, 232})
		}
		if x, ok := p.c.(interface{ CloseWrite() error }); ok {
			x.CloseWrite()
		}
	case "cut":
		p.cut.Store(true)
		p.raw.SetLinger(0)
		p.raw.Close()
	}
}

// other things a peer may do that are no messages
func (p *peer) extra(op []string) {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	switch op[0] {
	case "ping":
		p.frame(9, true, []byte("are you there"))
	case "pong":
		p.frame(10, true, nil)
	case "pieces": // one message in two frames
		p.r.log("peer", 0, []string{"send", op[1]}, []string{})
		b := payload(op[1])
		p.frame(2, false, b[:len(b)/2])
		p.frame(0, true, b[len(b)/2:])
	case "slow": // a message that arrives byte by byte
		p.r.log("peer", 0, []string{"send", op[1]}, []string{})
		b := payload(op[1])
		for _, x := range append([]byte{0x82, byte(len(b))}, b...) {
			p.c.Write([]byte{x})
			time.Sleep(time.Millisecond)
		}
	case "half": // half a frame, then a cut
		p.cut.Store(true)
		p.r.log("peer", 0, []string{"cut"}, []string{})
		b := payload("half")
		p.c.Write(append([]byte{0x82, byte(len(b))}, b[:2]...))
		p.c.Close()
	}
}

var cert, other tls.Certificate
var certPEM, otherPEM []byte
var dir, _ = os.MkdirTemp(os.Getenv("VSCRATCH"), "ws")

func makeCert() (tls.Certificate, []byte) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "peer"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func (r *run) run() {
	sc := r.sc
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	ready := make(chan *peer, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		raw := c.(*net.TCPConn)
		if sc.Cfg["dial"] == "drop" {
			c.Close()
			return
		}
		if sc.Cfg["dial"] == "silent" {
			time.Sleep(2 * time.Second)
			c.Close()
			return
		}
		if strings.HasPrefix(sc.Cfg["tls"], "t") {
			c = tls.Server(c, &tls.Config{Certificates: []tls.Certificate{cert}})
		}
		br := bufio.NewReader(c)
		req, err := http.ReadRequest(br)
		if err != nil {
			c.Close()
			return
		}
		if sc.Cfg["dial"] == "refuse" {
			io.WriteString(c, "HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n")
			c.Close()
			return
		}
		h := sha1.Sum([]byte(req.Header.Get("Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
		var b bytes.Buffer
		fmt.Fprintf(&b, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n\r\n", base64.StdEncoding.EncodeToString(h[:]))
		p := &peer{r: r, c: c, raw: raw, br: br}
		c.Write(b.Bytes())
		for _, op := range sc.Pre {
			r.peerOp(p, op[1:])
		}
		ready <- p
		p.read()
	}()
	var p *peer
	cfg := &websocket.Config{Url: "ws://" + l.Addr().String() + "/x", Origin: "http://127.0.0.1"}
	switch sc.Cfg["dial"] {
	case "nowhere":
		l.Close()
	case "url":
		cfg.Url = "http://" + l.Addr().String()
	case "bad":
		cfg.Url = "ws://%zz"
	case "origin":
		cfg.Origin = "::"
	}
	if t := sc.Cfg["tls"]; t != "" {
		cfg.Url = strings.Replace(cfg.Url, "ws:", "wss:", 1)
		switch t {
		case "tbytes":
			cfg.CertBytes = [][]byte{otherPEM, certPEM}
		case "tfiles":
			cfg.CertFiles = []string{dir + "/other.pem", dir + "/cert.pem"}
		case "tbytes2":
			cfg.CertBytes = [][]byte{certPEM, otherPEM}
		case "tfiles2":
			cfg.CertFiles = []string{dir + "/cert.pem", dir + "/other.pem"}
		case "tone":
			cfg.CertBytes = [][]byte{append(append([]byte{}, certPEM...), otherPEM...)}
		case "tempty": // certificates are given, but none
			cfg.CertBytes = [][]byte{}
		case "twrongbytes":
			cfg.CertBytes = [][]byte{otherPEM}
		case "twrongfiles":
			cfg.CertFiles = []string{dir + "/other.pem"}
		case "tjunk":
			cfg.CertBytes = [][]byte{certPEM, []byte("junk")}
		case "tnofile":
			cfg.CertFiles = []string{dir + "/cert.pem", dir + "/nothing.pem"}
		}
	}
	if sc.Cfg["timeout"] != "" {
		n, _ := strconv.Atoi(sc.Cfg["timeout"])
		cfg.TimeOut = time.Duration(n) * time.Millisecond
	}
	inside := func(cb string, h *websocket.Handler) {
		if s := sc.Cfg["in_"+cb]; s != "" {
			t := 100 + int(atomic.AddInt32(&r.tn, 1))
			for k, o := range strings.Split(s, ";") {
				op := strings.Fields(o)
				if op[0] == "send" {
					op = []string{"send", fmt.Sprint(cb, t, "-", k)}
				}
				r.clientOp(t, op, h)
			}
		}
	}
	if sc.Cfg["open"] == "t" {
		cfg.OnOpen = func(h *websocket.Handler) {
			r.log("cb", 0, []string{"open"}, []string{})
			inside("open", h)
		}
	}
	if sc.Cfg["msg"] == "t" {
		cfg.OnMessage = func(h *websocket.Handler, b []byte) {
			r.log("cb", 0, []string{"msg", id(b)}, []string{})
			inside("msg", h)
			if id(b) == "corrupt" {
				return
			}
		}
	}
	if sc.Cfg["error"] == "t" {
		cfg.OnError = func(h *websocket.Handler, err error) {
			x := "t"
			if err == nil {
				x = "f"
			}
			r.log("cb", 0, []string{"error", x}, []string{})
			inside("error", h)
		}
	}
	if sc.Cfg["close"] == "t" {
		cfg.OnClose = func(h *websocket.Handler) {
			r.log("cb", 0, []string{"close"}, []string{})
			inside("close", h)
		}
	}
	r.log("inv", 1, []string{"new"}, []string{})
	h, err := websocket.NewHandler(cfg)
	if err != nil || h == nil {
		if err == nil {
			r.log("ret", 1, []string{"new"}, []string{"nothing"})
			return
		}
		r.log("ret", 1, []string{"new"}, []string{"err"})
		time.Sleep(20 * time.Millisecond)
		r.log("quiet", 0, []string{}, []string{})
		return
	}
	r.log("ret", 1, []string{"new"}, []string{"ok"})
	select {
	case p = <-ready:
	case <-time.After(10 * time.Second):
		r.bad = "the peer did not get ready"
		return
	}
	var wg sync.WaitGroup
	for i, ops := range sc.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range ops {
				r.op(i+2, op, h, p)
			}
		}()
	}
	wg.Wait()
	r.settle()
	for _, op := range sc.Post {
		r.op(len(sc.Threads)+2, op, h, p)
	}
	r.settle()
	r.mu.Lock()
	r.over = true
	r.mu.Unlock()
	h.Close()
	p.raw.Close()
}

func (r *run) peerOp(p *peer, op []string) {
	switch op[0] {
	case "send", "end", "cut":
		p.do(op)
	default:
		p.extra(op)
	}
}

func (r *run) op(t int, op []string, h *websocket.Handler, p *peer) {
	switch op[0] {
	case "peer":
		r.peerOp(p, op[1:])
	case "wait":
		n, _ := strconv.Atoi(op[1])
		time.Sleep(time.Duration(n) * time.Millisecond)
	default:
		r.clientOp(t, op, h)
	}
}

func (r *run) clientOp(t int, op []string, h *websocket.Handler) {
	r.log("inv", t, op, []string{})
	res := func() (res []string) {
		defer func() {
			if e := recover(); e != nil {
				debug.PrintStack()
				res = []string{"panic", fmt.Sprint(e)}
			}
		}()
		var err error
		switch op[0] {
		case "send":
			b := payload(op[1])
			err = h.Send(b)
			if !bytes.Equal(b, payload(op[1])) {
				return []string{"the message changed"}
			}
		case "close":
			err = h.Close()
		case "error":
			if h.Error() != nil {
				return []string{"set"}
			}
			return []string{"nil"}
		}
		if err != nil {
			return []string{"err"}
		}
		return []string{"ok"}
	}()
	r.log("ret", t, op, res)
}

// settle waits until what has to happen has happened (at most some seconds), then a while
// for what must not happen.
func (r *run) settle() {
	cfg := r.sc.Cfg
	done := func() bool {
		r.mu.Lock()
		defer r.mu.Unlock()
		sent, got, ok, arr := 0, 0, 0, 0
		closing, gone, cut, freed, one, onc := false, false, false, false, 0, 0
		open := 0
		for _, e := range r.ev {
			switch {
			case e.E == "peer" && e.O[0] == "send":
				sent++
			case e.E == "peer" && e.O[0] == "got":
				arr++
			case e.E == "peer" && e.O[0] == "freed":
				freed = true
			case e.E == "peer" && e.O[0] == "end":
				gone = true
			case e.E == "peer" && e.O[0] == "cut":
				gone, cut = true, true
			case e.E == "cb" && e.O[0] == "msg":
				got++
			case e.E == "cb" && e.O[0] == "error":
				one++
			case e.E == "cb" && e.O[0] == "close":
				onc++
			case e.E == "inv":
				open++
				closing = closing || e.O[0] == "close"
			case e.E == "ret":
				open--
				if e.O[0] == "send" && e.R[0] == "ok" {
					ok++
				}
			}
		}
		if open > 0 {
			return false
		}
		if closing || gone {
			if cfg["error"] == "t" && one == 0 || cfg["close"] == "t" && onc == 0 {
				return false
			}
		}
		if (closing || gone) && !cut && !freed {
			return false
		}
		if !closing && !cut && cfg["msg"] == "t" && got < sent {
			return false
		}
		return gone || arr >= ok || closing && got < sent
	}
	for i := 0; i < 1500 && !done(); i++ {
		time.Sleep(4 * time.Millisecond)
	}
	time.Sleep(30 * time.Millisecond)
	r.log("quiet", 0, []string{}, []string{})
}

func main() {
	cert, certPEM = makeCert()
	other, otherPEM = makeCert()
	os.WriteFile(dir+"/cert.pem", certPEM, 0600)
	os.WriteFile(dir+"/other.pem", otherPEM, 0600)
	defer os.RemoveAll(dir)
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	var in struct {
		Scenarios []*drv.Scenario `json:"scenarios"`
	}
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	out := make([]*hist, len(in.Scenarios))
	sem := make(chan bool, 16)
	var wg sync.WaitGroup
	for i, sc := range in.Scenarios {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := &run{sc: sc}
			r.run()
			if r.bad != "" {
				fmt.Fprintln(os.Stderr, sc.Name, r.bad)
				os.Exit(3)
			}
			r.mu.Lock()
			out[i] = &hist{sc.Name, sc.Cfg, append([]ev{}, r.ev...)}
			r.mu.Unlock()
		}()
	}
	wg.Wait()
	f, _ := os.Create(os.Args[3])
	enc := json.NewEncoder(f)
	for _, h := range out {
		enc.Encode(h)
	}
	f.Close()
}
