package main

// A scriptable Bolt server. It speaks the wire format with the codec of ps.go only.

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"io"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// message signatures
const (
	sigInit     = 0x01
	sigGoodbye  = 0x02
	sigReset    = 0x0F
	sigRun      = 0x10
	sigBegin    = 0x11
	sigCommit   = 0x12
	sigRollback = 0x13
	sigDiscard  = 0x2F
	sigPull     = 0x3F
	sigSuccess  = 0x70
	sigRecord   = 0x71
	sigIgnored  = 0x7E
	sigFailure  = 0x7F
)

// Split says how a server cuts what it sends.
type Split struct {
	Chunk int  // bytes per chunk, 0 for as large as possible
	Seg   int  // bytes per network segment, 0 for all at once, -1 for random
	Pause bool // pause between segments, so that they really arrive apart
}

// Peer is one accepted connection.
type Peer struct {
	ID    int
	Conn  net.Conn
	TCP   *net.TCPConn // what Conn runs on
	Split Split
	Rnd   *rand.Rand
	Lens  []int // chunk lengths of the last message read
	eof   atomic.Bool
	wmu   sync.Mutex
}

var errFrame = errors.New("bad framing")

// Read reads one message and returns its payload.
func (p *Peer) Read() ([]byte, error) {
	var buf bytes.Buffer
	p.Lens = nil
	for {
		var h [2]byte
		if _, err := io.ReadFull(p.Conn, h[:]); err != nil {
			if len(p.Lens) > 0 {
				return nil, io.ErrUnexpectedEOF
			}
			return nil, err
		}
		n := int(binary.BigEndian.Uint16(h[:]))
		if n == 0 {
			if len(p.Lens) == 0 {
				return nil, errFrame
			}
			return buf.Bytes(), nil
		}
		p.Lens = append(p.Lens, n)
		if _, err := io.CopyN(&buf, p.Conn, int64(n)); err != nil {
			return nil, io.ErrUnexpectedEOF
		}
	}
}

func chunked(payload []byte, size int) []byte {
	if size <= 0 || size > 65535 {
		size = 65535
	}
	var out []byte
	for len(payload) > 0 {
		n := len(payload)
		if n > size {
			n = size
		}
		out = append(out, byte(n>>8), byte(n))
		out = append(out, payload[:n]...)
		payload = payload[n:]
	}
	return append(out, 0, 0)
}

// Raw writes bytes in the configured segments.
func (p *Peer) Raw(b []byte) error {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	for len(b) > 0 {
		n := len(b)
		if p.Split.Seg > 0 && n > p.Split.Seg {
			n = p.Split.Seg
		} else if p.Split.Seg < 0 {
			n = 1 + p.Rnd.Intn(n)
		}
		if _, err := p.Conn.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if len(b) > 0 && p.Split.Pause {
			time.Sleep(200 * time.Microsecond)
		}
	}
	return nil
}

// Send writes one message.
func (p *Peer) Send(payload []byte) error { return p.Raw(chunked(payload, p.Split.Chunk)) }

// Value writes one message made of a value.
func (p *Peer) Value(v interface{}) error { return p.Send(psEnc(nil, v)) }

func msg(sig byte, fields ...interface{}) *Struct { return &Struct{sig, fields} }

// Shut ends the stream to the driver.
func (p *Peer) Shut() { p.TCP.CloseWrite() }

// Abort resets the connection.
func (p *Peer) Abort() {
	p.TCP.SetLinger(0)
	p.TCP.Close()
}

// gate is a connection whose reads can be held up.
type gate struct {
	net.Conn
	held atomic.Bool
}

func (g *gate) Read(b []byte) (int, error) {
	for g.held.Load() {
		time.Sleep(5 * time.Millisecond)
	}
	return g.Conn.Read(b)
}

// Close closes the connection so that the peer sees the end of the stream.
func (p *Peer) Close() { p.Conn.Close() }

// Handshake reads the client's offer.
func (p *Peer) Handshake() ([]byte, error) {
	b := make([]byte, 20)
	_, err := io.ReadFull(p.Conn, b)
	return b, err
}

var goodHandshake = []byte{0x60, 0x60, 0xB0, 0x17, 0, 0, 0, 4, 0, 0, 0, 3, 0, 0, 0, 2, 0, 0, 0, 1}

// Server accepts connections and hands each to a function.
type Server struct {
	L      net.Listener
	Port   int
	mu     sync.Mutex
	next   int
	peers  map[*Peer]bool
	closed bool
}

func listen() net.Listener {
	for i := 0; ; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			return l
		}
		if i > 50 {
			panic(err)
		}
		time.Sleep(100 * time.Millisecond)
	}
}

// NewServer starts a server.
func NewServer(tlsConf *tls.Config, handle func(p *Peer)) *Server {
	return NewServerOn(listen(), tlsConf, handle)
}

// NewServerOn starts a server on a listener.
func NewServerOn(l net.Listener, tlsConf *tls.Config, handle func(p *Peer)) *Server {
	s := &Server{L: l, Port: l.Addr().(*net.TCPAddr).Port, peers: map[*Peer]bool{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			tcp := c.(*net.TCPConn)
			if tlsConf != nil {
				c = tls.Server(c, tlsConf)
			}
			s.mu.Lock()
			if s.closed {
				s.mu.Unlock()
				c.Close()
				continue
			}
			s.next++
			p := &Peer{ID: s.next, Conn: c, TCP: tcp, Rnd: rand.New(rand.NewSource(int64(s.next)))}
			s.peers[p] = true
			s.mu.Unlock()
			go func() {
				defer func() {
					p.eof.Store(true)
					p.Conn.Close()
					s.mu.Lock()
					delete(s.peers, p)
					s.mu.Unlock()
				}()
				handle(p)
			}()
		}
	}()
	return s
}

// Open counts the connections that are open.
func (s *Server) Open() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.peers)
}

// DropAll closes all connections.
func (s *Server) DropAll() {
	s.mu.Lock()
	var ps []*Peer
	for p := range s.peers {
		ps = append(ps, p)
	}
	s.mu.Unlock()
	for _, p := range ps {
		p.Close()
	}
}

// Close stops accepting and closes all connections.
func (s *Server) Close() {
	s.mu.Lock()
	s.closed = true
	s.mu.Unlock()
	s.L.Close()
	s.DropAll()
}

// refusingPort returns a port nobody listens on, and that nobody else gets until it is released.
func refusingPort() (int, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		fatal("socket:", err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		fatal("bind:", err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		fatal("getsockname:", err)
	}
	return sa.(*syscall.SockaddrInet4).Port, func() { syscall.Close(fd) }
}

// silentPort returns a port that does not even answer requests to connect, and a function to release it.
func silentPort() (int, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		fatal("socket:", err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		fatal("bind:", err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		fatal("getsockname:", err)
	}
	if err := syscall.Listen(fd, 0); err != nil {
		fatal("listen:", err)
	}
	port := sa.(*syscall.SockaddrInet4).Port
	fds := []int{fd}
	for i := 0; i < 4; i++ { // fill the queue of connections to accept
		c, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC|syscall.SOCK_NONBLOCK, 0)
		if err != nil {
			fatal("socket:", err)
		}
		syscall.Connect(c, &syscall.SockaddrInet4{Port: port, Addr: [4]byte{127, 0, 0, 1}})
		fds = append(fds, c)
	}
	time.Sleep(10 * time.Millisecond)
	return port, func() {
		for _, fd := range fds {
			syscall.Close(fd)
		}
	}
}
