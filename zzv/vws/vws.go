// Package vws replaces golang.org/x/net/websocket in instrumented code: connections to a peer
// the driver plays, with scheduling points. Frames are written and read whole, one at a time.
package vws

import (
	"crypto/tls"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"time"

	"github.com/donnie4w/gofer/zzv/vsched"
)

const (
	ProtocolVersionHybi13    = 13
	ProtocolVersionHybi      = 13
	SupportedProtocolVersion = "13"
	TextFrame                = 1
	BinaryFrame              = 2
	DefaultMaxPayloadBytes   = 32 << 20
)

var ErrFrameTooLarge = errors.New("websocket: frame payload size exceeds limit")

type Config struct {
	Location, Origin *url.URL
	Protocol         []string
	Version          int
	TlsConfig        *tls.Config
	Header           http.Header
	Dialer           *net.Dialer
}

// Connect is called by DialConfig.
var Connect func(*Config) (*Conn, error)

type frame struct {
	b    []byte
	kind byte
}

type Conn struct {
	PayloadType     byte
	MaxPayloadBytes int
	Arrive          func([]byte) // the peer gets a message
	Freed           func()       // the peer sees the end of the connection
	cfg             *Config
	in              []frame
	rest            []byte
	eof             error
	closed          bool
	reading         bool
}

func NewConfig(server, origin string) (c *Config, err error) {
	c = &Config{Version: 13, Header: http.Header{}}
	if c.Location, err = url.ParseRequestURI(server); err == nil {
		c.Origin, err = url.ParseRequestURI(origin)
	}
	return
}

func DialConfig(c *Config) (*Conn, error) {
	vsched.Y()
	x, err := Connect(c)
	vsched.Y()
	if x != nil {
		x.cfg = c
	}
	return x, err
}

func Dial(u, protocol, origin string) (*Conn, error) {
	c, err := NewConfig(u, origin)
	if err != nil {
		return nil, err
	}
	return DialConfig(c)
}

var errClosed = errors.New("use of closed network connection")

// Push makes the peer send a message, End makes it end the connection.
func (c *Conn) Push(b []byte, kind byte) { c.in = append(c.in, frame{b, kind}); vsched.Progress() }
func (c *Conn) End(err error, drop bool) {
	if c.eof == nil {
		c.eof = err
	}
	if drop {
		c.in = nil
	}
	vsched.Progress()
}

func (c *Conn) Close() error {
	vsched.Y()
	if c.closed {
		return errClosed
	}
	c.closed = true
	if c.Freed != nil {
		c.Freed()
	}
	vsched.Progress()
	vsched.Y()
	return nil
}

func (c *Conn) next() (frame, error) {
	vsched.Y()
	vsched.Block(func() bool { return !c.reading })
	c.reading = true
	vsched.Block(func() bool { return len(c.in) > 0 || c.eof != nil || c.closed })
	c.reading = false
	if c.closed {
		return frame{}, errClosed
	}
	if len(c.in) > 0 {
		f := c.in[0]
		c.in = c.in[1:]
		vsched.Y()
		return f, nil
	}
	return frame{}, c.eof
}

func (c *Conn) put(b []byte) error {
	vsched.Y()
	if c.closed {
		return errClosed
	}
	if c.eof != nil {
		return errors.New("broken pipe")
	}
	c.Arrive(append([]byte{}, b...))
	vsched.Y()
	return nil
}

func (c *Conn) Read(b []byte) (int, error) {
	if len(c.rest) == 0 {
		f, err := c.next()
		if err != nil {
			return 0, err
		}
		c.rest = f.b
	}
	n := copy(b, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}
func (c *Conn) Write(b []byte) (int, error) {
	if err := c.put(b); err != nil {
		return 0, err
	}
	return len(b), nil
}
func (c *Conn) IsClientConn() bool               { return true }
func (c *Conn) IsServerConn() bool               { return false }
func (c *Conn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *Conn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *Conn) SetDeadline(time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(time.Time) error { return nil }
func (c *Conn) Config() *Config                  { return c.cfg }
func (c *Conn) Request() *http.Request           { return nil }

type Codec struct {
	Marshal   func(v interface{}) (data []byte, payloadType byte, err error)
	Unmarshal func(data []byte, payloadType byte, v interface{}) (err error)
}

func (cd Codec) Send(c *Conn, v interface{}) error {
	b, _, err := cd.Marshal(v)
	if err != nil {
		return err
	}
	return c.put(b)
}

func (cd Codec) Receive(c *Conn, v interface{}) error {
	f, err := c.next()
	if err != nil {
		return err
	}
	return cd.Unmarshal(append([]byte{}, f.b...), f.kind, v)
}

var errType = errors.New("not supported")

var Message = Codec{func(v interface{}) ([]byte, byte, error) {
	switch d := v.(type) {
	case string:
		return []byte(d), TextFrame, nil
	case []byte:
		return d, BinaryFrame, nil
	}
	return nil, 0, errType
}, func(b []byte, k byte, v interface{}) error {
	switch d := v.(type) {
	case *string:
		*d = string(b)
		return nil
	case *[]byte:
		*d = b
		return nil
	}
	return errType
}}

var _ io.ReadWriteCloser = (*Conn)(nil)
