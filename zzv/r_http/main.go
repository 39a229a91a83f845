// Driver for httpclient with a server on the loopback network that plays planned replies (C30).
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/donnie4w/gofer/httpclient"
	"github.com/donnie4w/gofer/zzv/drv"
)

type ev struct {
	E string   `json:"e"`
	T int      `json:"t"`
	O []string `json:"o"`
	R []string `json:"r"`
	C int64    `json:"c"`
}

type run struct {
	mu sync.Mutex
	ev []ev
}

func (r *run) log(e string, t int, o, res []string) {
	r.mu.Lock()
	r.ev = append(r.ev, ev{e, t, o, res, 0})
	r.mu.Unlock()
}

// the body a name (its size) stands for in this call
func payload(seed, size string) []byte {
	n, _ := strconv.Atoi(size)
	b := make([]byte, n)
	x := uint32(2166136261)
	for i := range seed {
		x = (x ^ uint32(seed[i])) * 16777619
	}
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x)
	}
	return b
}

func id(seed string, b []byte) string {
	n := strconv.Itoa(len(b))
	if bytes.Equal(payload(seed, n), b) {
		return n
	}
	return "corrupt:" + n
}

type call struct {
	tag, body, clos, hdr, cookie, way, fn, tls string
	status, frame, size, cut, how              string
	whole                                      bool
}

var cert = func() tls.Certificate {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "server"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
}()

func pairs(h string) (p [][2]string) {
	for _, kv := range strings.Split(h, ";") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			p = append(p, [2]string{k, v})
		}
	}
	return
}

// names of headers some call gives: none of them belongs into a request that was not told to
var ours = []string{"X-A", "X-Lower", "X-Two", "X-Empty", "Authorization", "Content-Type"}

func headers(c *call, h http.Header) string {
	var bad []string
	given := map[string]bool{}
	for _, p := range pairs(c.hdr) {
		given[http.CanonicalHeaderKey(p[0])] = true
		if l := h.Values(p[0]); len(l) != 1 || l[0] != p[1] {
			bad = append(bad, fmt.Sprintf("%s=%q", p[0], l))
		}
	}
	for _, k := range ours {
		if !given[k] && len(h.Values(k)) > 0 {
			bad = append(bad, fmt.Sprintf("%s=%q", k, h.Values(k)))
		}
	}
	if bad == nil {
		return c.hdr
	}
	sort.Strings(bad)
	return "not as given: " + strings.Join(bad, " ")
}

func (r *run) serve(c *call, addr string, conn net.Conn) {
	raw := conn.(*net.TCPConn)
	defer raw.Close()
	raw.SetDeadline(time.Now().Add(25 * time.Second))
	answer := func(kind, body string) { r.log("srv", 0, []string{"reply", c.tag, kind, body}, []string{}) }
	if c.cut == "unread" {
		answer("broken", "")
		raw.SetLinger(0)
		return
	}
	if c.tls == "t" {
		conn = tls.Server(raw, &tls.Config{Certificates: []tls.Certificate{cert}})
	}
	br := bufio.NewReader(conn)
	req, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	b, err := io.ReadAll(req.Body)
	what := id("q"+c.tag, b)
	if err != nil {
		what = "broken off"
	}
	m := req.Method
	if req.URL.RequestURI() != "/p/"+c.tag+"?q="+c.tag || req.Host != addr {
		m += " to " + req.Host + req.URL.RequestURI()
	}
	var ck []string
	for _, x := range req.Cookies() {
		ck = append(ck, x.Name+"="+x.Value)
	}
	cl := "f"
	if req.Close {
		cl = "t"
	}
	r.log("srv", 0, []string{"req", c.tag, m, what, cl, headers(c, req.Header), strings.Join(ck, ";")}, []string{})

	body := payload("r"+c.tag, c.size)
	var head bytes.Buffer
	if c.how == "interim" {
		head.WriteString("HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\nHTTP/1.1 100 Continue\r\n\r\n")
	}
	fmt.Fprintf(&head, "HTTP/1.1 %s Planned\r\nContent-Type: application/octet-stream\r\n", c.status)
	if c.how == "gzip" && strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") {
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(body)
		w.Close()
		body = z.Bytes()
		if c.cut == "stream" {
			body = body[:len(body)*2/3]
		}
		head.WriteString("Content-Encoding: gzip\r\n")
	}
	end := len(body) // what is sent of the body
	switch c.cut {
	case "part", "reset", "chunk":
		end = len(body) / 2
	case "last":
		if c.frame == "length" {
			end--
		}
	}
	var rest bytes.Buffer
	switch {
	case c.status == "204" || c.status == "304":
	case c.frame == "length":
		fmt.Fprintf(&head, "Content-Length: %d\r\n", len(body))
		rest.Write(body[:end])
	case c.frame == "chunked":
		head.WriteString("Transfer-Encoding: chunked\r\n")
		for i := 0; i < end; {
			n := min(end-i, 1+(i*7+13)%9000)
			fmt.Fprintf(&rest, "%x\r\n", n)
			rest.Write(body[i : i+n])
			rest.WriteString("\r\n")
			i += n
		}
		switch c.cut {
		case "chunk":
			rest.WriteString("what\r\n")
		case "no", "stream":
			rest.WriteString("0\r\n\r\n")
		}
	default:
		head.WriteString("Connection: close\r\n")
		rest.Write(body[:end])
	}
	head.WriteString("\r\n")
	out := append(head.Bytes(), rest.Bytes()...)
	switch c.cut {
	case "before":
		out = nil
	case "status":
		out = []byte("HTTP/1.1 2")
	case "headers":
		out = []byte("HTTP/1.1 200 OK\r\nContent-Le")
	case "garbage":
		out = []byte("I am no such server\r\n\r\n\r\n")
	}
	if c.whole {
		answer("whole", c.size)
	} else {
		answer("broken", "")
	}
	if c.how == "pieces" {
		n := len(out)/9 + 1
		for len(out) > 0 {
			k := min(n, len(out))
			conn.Write(out[:k])
			out = out[k:]
			time.Sleep(time.Millisecond)
		}
	} else {
		conn.Write(out)
	}
	if c.cut == "reset" {
		time.Sleep(3 * time.Millisecond)
		raw.SetLinger(0)
		return
	}
	if c.whole && (c.frame == "length" || c.frame == "chunked" || c.status == "204" || c.status == "304") || c.cut == "stream" && c.frame != "eof" {
		raw.SetDeadline(time.Now().Add(5 * time.Second))
		io.Copy(io.Discard, br) // it is the client that closes
	}
	conn.Close()
}

func (r *run) post(t int, op []string) {
	c := &call{op[1], op[2], op[3], op[4], op[5], op[6], op[7], op[8], op[9], op[10], op[11], op[12], op[13], op[14] == "t"}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	addr := l.Addr().String()
	var wg sync.WaitGroup
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			wg.Add(1)
			go func() { defer wg.Done(); r.serve(c, addr, conn) }()
		}
	}()
	url := "http://" + addr + "/p/" + c.tag + "?q=" + c.tag
	if c.tls == "t" {
		url = strings.Replace(url, "http:", "https:", 1)
	}
	hdr := map[string]string{}
	for _, p := range pairs(c.hdr) {
		hdr[p[0]] = p[1]
	}
	switch c.way {
	case "port":
		l.Close()
	case "url":
		url = "http://%zz/"
	case "scheme":
		url = strings.Replace(url, "http", "gopher", 1)
	case "header":
		hdr["no header\n"] = "x"
	case "value":
		hdr["X-A"] = "a\r\nX-B: 1"
	case "nottls":
		url = strings.Replace(url, "http:", "https:", 1)
	case "tls":
		url = strings.Replace(url, "https:", "http:", 1)
	}
	var ck *http.Cookie
	if c.cookie != "" {
		n, v, _ := strings.Cut(c.cookie, "=")
		ck = &http.Cookie{Name: n, Value: v}
	}
	if len(hdr) == 0 && c.body != "17" {
		hdr = nil
	}
	body := payload("q"+c.tag, c.body)
	was := append([]byte{}, body...)
	if c.body == "0" && c.clos == "t" {
		body = nil
	}
	r.log("inv", t, op[:7], []string{})
	res := func() (res []string) {
		defer func() {
			if e := recover(); e != nil {
				debug.PrintStack()
				res = []string{"panic", fmt.Sprint(e)}
			}
		}()
		var b []byte
		var err error
		switch c.fn {
		case "Post":
			b, err = httpclient.Post(body, url)
		case "Post2":
			b, err = httpclient.Post2(body, c.clos == "t", url)
		default:
			b, err = httpclient.Post3(body, c.clos == "t", url, hdr, ck)
		}
		switch {
		case !bytes.Equal(body, was):
			return []string{"the request body changed"}
		case err != nil && len(b) > 0:
			return []string{"err", fmt.Sprint("with ", len(b), " bytes")}
		case err != nil:
			return []string{"err"}
		}
		return []string{"ok", id("r"+c.tag, b)}
	}()
	r.log("ret", t, op[:7], res)
	l.Close()
	wg.Wait()
}

func main() {
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	var in struct {
		Scenarios []*drv.Scenario `json:"scenarios"`
	}
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	out := make([]any, len(in.Scenarios))
	sem := make(chan bool, 12)
	var all sync.WaitGroup
	for i, sc := range in.Scenarios {
		all.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; all.Done() }()
			r := &run{}
			var wg sync.WaitGroup
			for t, ops := range sc.Threads {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, op := range ops {
						r.post(t+1, op)
					}
				}()
			}
			done := make(chan bool)
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(60 * time.Second):
			}
			r.log("quiet", 0, []string{}, []string{})
			r.mu.Lock()
			out[i] = map[string]any{"name": sc.Name, "cfg": sc.Cfg, "ev": append([]ev{}, r.ev...)}
			r.mu.Unlock()
		}()
	}
	all.Wait()
	f, _ := os.Create(os.Args[3])
	enc := json.NewEncoder(f)
	for _, h := range out {
		enc.Encode(h)
	}
	f.Close()
}
