// Package fb is a scripted Bolt server (versions 1 to 4) on the loopback
// network, written from the protocol description and sharing no code with the
// driver. It is strict: whatever a client may not send in the state the
// connection is in is recorded as a violation.
package fb

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"vharness/ps"
)

// Response message builders.
func Success(meta ps.V) ps.V { return ps.StructV(0x70, meta) }
func Record(row ps.V) ps.V   { return ps.StructV(0x71, row) }
func Ignored() ps.V          { return ps.StructV(0x7e) }
func Failure(code, msg string) ps.V {
	return ps.StructV(0x7f, ps.MapV("code", ps.StrV(code), "message", ps.StrV(msg)))
}

// Empty is an empty map.
func Empty() ps.V { return ps.V{K: ps.Map} }

// Fault damages a reply at byte At of its framed form.
type Fault struct {
	Kind  string `json:"kind"`            // close, rst, stall, garbage, pause
	At    int    `json:"at"`              // bytes of the reply sent intact (more than there are: all)
	Extra []byte `json:"extra,omitempty"` // garbage: sent at At
	Skip  int    `json:"skip,omitempty"`  // garbage: bytes of the reply left out
	Waits []Wait `json:"waits,omitempty"` // pause: nothing is lost
}

// Wait is a time to wait before the rest of a reply is sent.
type Wait struct {
	At int `json:"at"` // in the bytes of the reply, ascending
	Ms int `json:"ms"`
}

// Reply is what the server answers to one request.
type Reply struct {
	Msgs  []ps.V
	Raw   []byte // if set, sent (as the framed form) instead of Msgs
	Fault *Fault
	Delay time.Duration
}

// Request is a request as the server understood it.
type Request struct {
	Conn   *Conn
	Kind   string // init run pull discard begin commit rollback reset goodbye
	Sig    byte
	Fields []ps.V
	Query  string // run; for pull and discard the statement they belong to
	Params ps.V
	Meta   ps.V
	InTx   bool
	Chunks []int
}

// Event is an entry of the server's log.
type Event struct {
	Conn   int
	Kind   string // accept handshake, the kinds of Request, eof
	Query  string
	Params ps.V
	Meta   ps.V
	Fields []ps.V
	Sig    byte
	InTx   bool
	Failed bool // answered with FAILURE or IGNORED
	Chunks []int
}

// Effect is a statement that took effect.
type Effect struct {
	Conn   int
	Query  string
	Params ps.V
}

// Config of a server.
type Config struct {
	Version   int
	Choice    []byte // raw answer to the handshake instead of Version
	Offer     []byte // expected handshake, Handshake by default
	CheckAuth bool
	User      string
	Pass      string
	TLS       *tls.Config
	Chunks    []int // sizes of the chunks of replies, cyclic
	Frags     []int // sizes of the writes, cyclic
	FragPause time.Duration
	Handler   func(*Request) *Reply // nil reply: SUCCESS {}
	// Greet is applied to the answer to the handshake.
	Greet *Fault
	// StallTLS accepts and then never answers the TLS handshake.
	StallTLS bool
	// Deaf accepts connections and ignores them.
	Deaf bool
	// DeafAfter stops reading a connection after so many bytes (until released).
	DeafAfter int
	Addr      string // address to listen on, a port of Loopback by default
}

// Server is a running server.
type Server struct {
	Cfg        Config
	Addr       string
	ln         net.Listener
	mu         sync.Mutex
	cond       *sync.Cond
	conns      []*Conn
	log        []Event
	effects    []Effect
	violations []string
	maxOpen    int
	open       int
	stopped    chan struct{}
	wg         sync.WaitGroup
}

// Conn is one accepted connection.
type Conn struct {
	ID         int
	srv        *Server
	raw        *net.TCPConn
	nc         net.Conn
	sniff      []byte // first raw bytes received
	state      string // "", init, ready, stream, failed, authfail, dead
	tx         bool
	broken     bool // a fault ended the dialogue
	query      string
	params     ps.V
	autoRun    bool
	pending    []Effect
	committing []Effect // versions 1 and 2: committed by the next PULL
	release    chan struct{}
	ended      bool // the client's end of stream was seen
	down       bool // the server closed its side
	hung       bool // it hung up of its own accord
	fin        bool // and the client's kernel knows
	frag       int
	got        int // bytes read, used by the connection's goroutine only
	relOnce    sync.Once
	authed     bool
}

// Loopback is the address of this process, so that nothing of another process,
// running at the same time or before, takes a server here for its own.
var Loopback = loopback()

func loopback() [4]byte {
	pid := os.Getpid()
	a := [4]byte{127, byte(16 + pid>>16&127), byte(pid >> 8), byte(pid)}
	ln, err := net.ListenTCP("tcp", &net.TCPAddr{IP: a[:]})
	if err != nil {
		return [4]byte{127, 0, 0, 1}
	}
	ln.Close()
	return a
}

// New starts a server.
func New(cfg Config) (*Server, error) {
	addr := cfg.Addr
	if addr == "" {
		addr = net.IP(Loopback[:]).String() + ":0"
	}
	ln, err := net.Listen("tcp", addr)
	for i := 0; err != nil && errors.Is(err, syscall.EADDRINUSE) && cfg.Addr == "" && i < 90; i++ {
		time.Sleep(time.Second) // every port is in use or waits for its time to pass
		ln, err = net.Listen("tcp", addr)
	}
	if err != nil {
		return nil, err
	}
	s := &Server{Cfg: cfg, ln: ln, Addr: ln.Addr().String(), stopped: make(chan struct{})}
	s.cond = sync.NewCond(&s.mu)
	s.wg.Add(1)
	go s.accept()
	return s, nil
}

func (s *Server) accept() {
	defer s.wg.Done()
	for {
		nc, err := s.ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		c := &Conn{ID: len(s.conns), srv: s, raw: nc.(*net.TCPConn), release: make(chan struct{})}
		s.conns = append(s.conns, c)
		s.log = append(s.log, Event{Conn: c.ID, Kind: "accept"})
		s.open++
		if s.open > s.maxOpen {
			s.maxOpen = s.open
		}
		s.cond.Broadcast()
		select {
		case <-s.stopped:
			s.mu.Unlock()
			nc.Close()
			return
		default:
		}
		s.wg.Add(1)
		s.mu.Unlock()
		go func() {
			defer s.wg.Done()
			c.serve()
		}()
	}
}

// StopAccepting closes the listener only.
func (s *Server) StopAccepting() { s.ln.Close() }

// Close ends the server and all its connections.
func (s *Server) Close() {
	s.ln.Close()
	s.mu.Lock()
	select {
	case <-s.stopped:
	default:
		close(s.stopped)
	}
	cs := append([]*Conn{}, s.conns...)
	s.mu.Unlock()
	for _, c := range cs {
		c.Release()
		_ = c.raw.SetLinger(0)
		c.raw.Close()
	}
	s.wg.Wait()
}

// Release lets a stalled connection go on.
func (c *Conn) Release() { c.relOnce.Do(func() { close(c.release) }) }

// ReleaseAll lets all stalled connections go on.
func (s *Server) ReleaseAll() {
	for _, c := range s.Conns() {
		c.Release()
	}
}

// Lock-protected views.
func (s *Server) Log() []Event {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Event{}, s.log...)
}

// Mark is the current length of the log.
func (s *Server) Mark() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.log) }

// Effects are the committed statements in order.
func (s *Server) Effects() []Effect {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Effect{}, s.effects...)
}

// Violations of the protocol by the client.
func (s *Server) Violations() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.violations...)
}

// Open is the number of connections the client has not closed.
func (s *Server) Open() int { s.mu.Lock(); defer s.mu.Unlock(); return s.open }

// MaxOpen is the largest number of connections open at once.
func (s *Server) MaxOpen() int { s.mu.Lock(); defer s.mu.Unlock(); return s.maxOpen }

// Accepted is the number of connections ever accepted.
func (s *Server) Accepted() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.conns) }

// Conns lists all connections ever accepted.
func (s *Server) Conns() []*Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Conn{}, s.conns...)
}

// Live lists connections that neither side has closed and that authenticated.
func (s *Server) Live() []*Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []*Conn
	for _, c := range s.conns {
		if !c.ended && !c.down && c.authed {
			out = append(out, c)
		}
	}
	return out
}

// Alive reports that neither side has closed the connection.
func (c *Conn) Alive() bool {
	c.srv.mu.Lock()
	defer c.srv.mu.Unlock()
	return !c.ended && !c.down
}

// Down reports that the server cut the connection, or is about to.
func (c *Conn) Down() bool { c.srv.mu.Lock(); defer c.srv.mu.Unlock(); return c.down }

// Ended reports that the client closed the connection.
func (c *Conn) Ended() bool { c.srv.mu.Lock(); defer c.srv.mu.Unlock(); return c.ended }

// InTx reports an open transaction.
func (c *Conn) InTx() bool { c.srv.mu.Lock(); defer c.srv.mu.Unlock(); return c.tx }

// Sniffed is the beginning of what the client sent, as it was on the wire.
func (c *Conn) Sniffed() []byte {
	c.srv.mu.Lock()
	defer c.srv.mu.Unlock()
	return append([]byte{}, c.sniff...)
}

// Server it belongs to.
func (c *Conn) Server() *Server { return c.srv }

// Wait waits until cond holds (evaluated with the server's lock not held).
func (s *Server) Wait(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for pause := 100 * time.Microsecond; ; {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		time.Sleep(pause)
		if pause < 5*time.Millisecond {
			pause *= 2
		}
	}
}

// WaitAllEnded waits until the client closed every connection.
func (s *Server) WaitAllEnded(d time.Duration) bool {
	return s.Wait(d, func() bool { return s.Open() == 0 })
}

// GoneDown waits until every connection whose dialogue the server cut has been
// closed as far as the client's kernel.
func (s *Server) GoneDown(d time.Duration) bool {
	return s.Wait(d, func() bool {
		s.mu.Lock()
		defer s.mu.Unlock()
		for _, c := range s.conns {
			if c.down && !c.fin {
				return false
			}
		}
		return true
	})
}

// HangUp closes the server's side of the connection and returns once the
// client's kernel knows it (or the client closed too).
func (c *Conn) HangUp(rst bool) {
	c.srv.mu.Lock()
	c.down, c.hung = true, true
	c.tx = false
	c.pending = nil
	nc := c.nc
	c.srv.mu.Unlock()
	c.close(nc, rst)
}

// Farewell sends a message nobody asked for, as servers do when they shut down, and hangs up.
func (c *Conn) Farewell() {
	c.srv.mu.Lock()
	c.down = true
	nc := c.nc
	c.srv.mu.Unlock()
	_, _ = nc.Write(c.srv.Frame([]ps.V{Failure("Neo.TransientError.General.DatabaseUnavailable", "shutting down")}))
	c.HangUp(false)
}

func (c *Conn) close(nc net.Conn, rst bool) {
	defer func() {
		c.srv.mu.Lock()
		c.fin = true
		c.srv.mu.Unlock()
	}()
	if rst {
		_ = c.raw.SetLinger(0)
		c.raw.Close()
		// the reset is delivered synchronously on loopback
		return
	}
	if t, ok := nc.(*tls.Conn); ok {
		_ = t.CloseWrite()
	}
	_ = c.raw.CloseWrite()
	c.waitFin()
}

// waitFin waits until the peer's kernel acknowledged our FIN.
func (c *Conn) waitFin() {
	rc, err := c.raw.SyscallConn()
	if err != nil {
		return
	}
	for i := 0; i < 20000; i++ {
		state := uint8(0)
		e := rc.Control(func(fd uintptr) {
			var buf [256]byte
			l := uint32(len(buf))
			const tcpInfo = 11
			_, _, errno := syscall.Syscall6(syscall.SYS_GETSOCKOPT, fd, syscall.IPPROTO_TCP, tcpInfo, uintptr(unsafe.Pointer(&buf[0])), uintptr(unsafe.Pointer(&l)), 0)
			if errno == 0 {
				state = buf[0]
			}
		})
		// 1 established, 4 fin-wait-1, 9 last-ack, 11 closing: not acknowledged yet
		if e != nil || !(state == 1 || state == 4 || state == 9 || state == 11) {
			return
		}
		time.Sleep(100 * time.Microsecond)
	}
}

type sniffer struct {
	*net.TCPConn
	c *Conn
}

func (s sniffer) Read(p []byte) (int, error) {
	if d := s.c.srv.Cfg.DeafAfter; d > 0 && s.c.got > d {
		select {
		case <-s.c.release:
		case <-s.c.srv.stopped:
		}
	}
	n, err := s.TCPConn.Read(p)
	s.c.got += n
	if n > 0 {
		s.c.srv.mu.Lock()
		if len(s.c.sniff) < 4096 {
			s.c.sniff = append(s.c.sniff, p[:n]...)
		}
		s.c.srv.mu.Unlock()
	}
	return n, err
}

func (c *Conn) violate(f string, a ...interface{}) {
	c.srv.mu.Lock()
	c.srv.violations = append(c.srv.violations, fmt.Sprintf("connection %d: ", c.ID)+fmt.Sprintf(f, a...))
	c.srv.mu.Unlock()
}

func (c *Conn) event(e Event) {
	e.Conn = c.ID
	c.srv.mu.Lock()
	c.srv.log = append(c.srv.log, e)
	c.srv.cond.Broadcast()
	c.srv.mu.Unlock()
}

func (c *Conn) end() {
	c.srv.mu.Lock()
	if !c.ended {
		c.ended = true
		c.tx = false
		c.pending = nil
		c.srv.open--
		c.srv.log = append(c.srv.log, Event{Conn: c.ID, Kind: "eof"})
		c.srv.cond.Broadcast()
	}
	c.srv.mu.Unlock()
}

// drain reads until the client closes.
func (c *Conn) drain() {
	buf := make([]byte, 4096)
	for {
		if _, err := c.raw.Read(buf); err != nil {
			return
		}
	}
}

func (c *Conn) send(b []byte) error {
	fr := c.srv.Cfg.Frags
	if len(fr) == 0 {
		_, err := c.nc.Write(b)
		return err
	}
	for i := 0; len(b) > 0; i++ {
		n := fr[c.frag%len(fr)]
		c.frag++
		if n < 1 {
			n = 1
		}
		if i > 250 && n < len(b)/50 {
			n = len(b) / 50 // long replies are fragmented finely only at the start
		}
		if n > len(b) {
			n = len(b)
		}
		if _, err := c.nc.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if c.srv.Cfg.FragPause > 0 && len(b) > 0 && i < 12 {
			time.Sleep(c.srv.Cfg.FragPause)
		}
	}
	return nil
}

// transmit sends framed bytes, with a fault. It reports whether the dialogue goes on.
func (c *Conn) transmit(b []byte, f *Fault) bool {
	if f == nil {
		return c.send(b) == nil
	}
	if f.Kind == "pause" {
		sent := 0
		for i, w := range f.Waits {
			if w.At >= len(b) || w.At <= sent && i > 0 {
				continue // each pause is followed by something
			}
			if c.send(b[sent:w.At]) != nil {
				return false
			}
			sent = w.At
			select {
			case <-time.After(time.Duration(w.Ms) * time.Millisecond):
			case <-c.srv.stopped:
			}
		}
		return c.send(b[sent:]) == nil
	}
	at := f.At
	if at > len(b) || at < 0 {
		at = len(b)
	}
	if f.Kind == "close" || f.Kind == "rst" {
		c.srv.mu.Lock()
		c.down = true // before the client can see the reply: GoneDown must wait for it
		c.tx = false
		c.pending = nil
		c.srv.mu.Unlock()
	}
	if c.send(b[:at]) != nil {
		if c.Down() {
			c.close(c.nc, true)
		}
		return false
	}
	switch f.Kind {
	case "close", "rst":
		c.close(c.nc, f.Kind == "rst")
		return false
	case "stall":
		select {
		case <-c.release:
		case <-c.srv.stopped:
		}
		return c.send(b[at:]) == nil
	case "garbage":
		rest := b[at:]
		if f.Skip > len(rest) {
			rest = nil
		} else {
			rest = rest[f.Skip:]
		}
		return c.send(append(append([]byte{}, f.Extra...), rest...)) == nil
	}
	panic("fb: unknown fault " + f.Kind)
}

// Frame is the framed form of messages.
func (s *Server) Frame(msgs []ps.V) []byte {
	var b []byte
	for _, m := range msgs {
		b = append(b, ps.Chunk(ps.Encode(m), s.Cfg.Chunks)...)
	}
	return b
}

// Handshake is what a client must send first.
var Handshake = []byte{0x60, 0x60, 0xb0, 0x17, 0, 0, 0, 4, 0, 0, 0, 3, 0, 0, 0, 2, 0, 0, 0, 1}

func (c *Conn) serve() {
	// a reset instead of an orderly close keeps the client's port from waiting
	// for its time to pass; the client has closed already
	defer func() { _ = c.raw.SetLinger(0); c.raw.Close() }()
	defer c.end()
	defer c.drainIfUp()
	_ = c.raw.SetNoDelay(true)
	cfg := &c.srv.Cfg
	sn := sniffer{c.raw, c}
	if cfg.Deaf {
		_, _ = io.Copy(io.Discard, sn)
		return
	}
	c.srv.mu.Lock()
	c.nc = sn
	c.srv.mu.Unlock()
	if cfg.StallTLS {
		var b [1]byte
		_, _ = sn.Read(b[:])
		select {
		case <-c.release:
		case <-c.srv.stopped:
		}
		return
	}
	if cfg.TLS != nil {
		t := tls.Server(sn, cfg.TLS)
		if err := t.Handshake(); err != nil {
			c.event(Event{Kind: "tls-error", Query: err.Error()})
			return
		}
		c.srv.mu.Lock()
		c.nc = t
		c.srv.mu.Unlock()
		var names []string
		for _, cert := range t.ConnectionState().PeerCertificates {
			names = append(names, cert.Subject.CommonName)
		}
		c.event(Event{Kind: "tls", Query: strings.Join(names, " ")})
	}
	hs := make([]byte, 20)
	if n, err := io.ReadFull(c.nc, hs); err != nil {
		if n > 0 {
			c.violate("incomplete handshake % x", hs[:n])
		}
		return
	}
	offer := cfg.Offer
	if offer == nil {
		offer = Handshake
	}
	if !bytes.Equal(hs, offer) {
		c.violate("handshake % x", hs)
		if !bytes.Equal(hs[:4], offer[:4]) {
			_ = c.raw.CloseWrite()
			return
		}
	}
	c.event(Event{Kind: "handshake"})
	ch := cfg.Choice
	if ch == nil {
		ch = []byte{0, 0, 0, byte(cfg.Version)}
	}
	if !c.transmit(ch, cfg.Greet) {
		return
	}
	c.state = "init"
	for {
		body, chunks, err := c.readMessage()
		c.srv.mu.Lock()
		down := c.down
		c.srv.mu.Unlock()
		if down {
			return
		}
		if err != nil {
			if err != io.EOF && err != errGone {
				c.violate("%v", err)
			}
			return
		}
		v, err := ps.Parse(body)
		if err != nil {
			c.violate("undecodable message % x: %v", body, err)
			return
		}
		if v.K != ps.Struct {
			c.violate("message is not a structure: %s", ps.Show(v))
			return
		}
		if !c.request(v, chunks) {
			return
		}
	}
}

// drainIfUp keeps reading until the client closes, unless the server goes away.
func (c *Conn) drainIfUp() { c.drain() }

var errGone = fmt.Errorf("gone")

func (c *Conn) readMessage() ([]byte, []int, error) {
	var body []byte
	var chunks []int
	for {
		var h [2]byte
		n, err := io.ReadFull(c.nc, h[:])
		if err != nil {
			if n == 0 && len(chunks) == 0 {
				if err == io.EOF {
					return nil, nil, io.EOF
				}
				return nil, nil, errGone
			}
			return nil, nil, errGone // cut short: the client went away
		}
		l := int(binary.BigEndian.Uint16(h[:]))
		if l == 0 {
			if len(chunks) == 0 {
				return nil, nil, fmt.Errorf("empty message")
			}
			return body, chunks, nil
		}
		chunks = append(chunks, l)
		at := len(body)
		body = append(body, make([]byte, l)...)
		if _, err := io.ReadFull(c.nc, body[at:]); err != nil {
			return nil, nil, errGone
		}
	}
}

func isMap(v ps.V) bool { return v.K == ps.Map }

// request handles one message; false ends the dialogue.
func (c *Conn) request(v ps.V, chunks []int) bool {
	ver := c.srv.Cfg.Version
	c.srv.mu.Lock()
	inTx, hung := c.tx, c.hung
	c.srv.mu.Unlock()
	if hung {
		c.drain() // it was sent to nobody
		return false
	}
	r := &Request{Conn: c, Sig: v.Sig, Fields: v.L, InTx: inTx, Chunks: chunks}
	bad := func(f string, a ...interface{}) bool {
		c.violate(f+": %s", append(a, ps.Show(v))...)
		c.event(Event{Kind: "bad", Sig: v.Sig, Fields: v.L})
		c.state = "failed"
		return c.transmit(c.srv.Frame([]ps.V{Failure("Neo.ClientError.Request.Invalid", "violation")}), nil)
	}
	switch {
	case v.Sig == 0x01:
		r.Kind = "init"
		if ver <= 2 {
			if len(v.L) != 2 || v.L[0].K != ps.Str || !isMap(v.L[1]) {
				return bad("malformed INIT")
			}
			r.Meta = v.L[1]
		} else {
			if len(v.L) != 1 || !isMap(v.L[0]) {
				return bad("malformed HELLO")
			}
			r.Meta = v.L[0]
		}
	case v.Sig == 0x10:
		r.Kind = "run"
		want := 2
		if ver >= 3 {
			want = 3
		}
		if len(v.L) != want || v.L[0].K != ps.Str || !isMap(v.L[1]) || (want == 3 && !isMap(v.L[2])) {
			return bad("malformed RUN")
		}
		r.Query, r.Params = string(v.L[0].S), v.L[1]
		r.Meta = Empty()
		if want == 3 {
			r.Meta = v.L[2]
		}
		if ver <= 2 {
			switch r.Query {
			case "BEGIN", "COMMIT", "ROLLBACK":
				r.Kind = map[string]string{"BEGIN": "begin", "COMMIT": "commit", "ROLLBACK": "rollback"}[r.Query]
				r.Query = ""
				if len(r.Params.L) != 0 {
					return bad("parameters for %s", r.Kind)
				}
			}
		}
	case v.Sig == 0x3f || v.Sig == 0x2f:
		r.Kind = "pull"
		if v.Sig == 0x2f {
			r.Kind = "discard"
		}
		if ver < 4 && len(v.L) != 0 {
			return bad("malformed %s", r.Kind)
		}
		if ver == 4 {
			if len(v.L) != 1 || !isMap(v.L[0]) {
				return bad("malformed %s", r.Kind)
			}
			r.Meta = v.L[0]
			n, ok := r.Meta.Get("n")
			if !ok || n.K != ps.Int || n.I != -1 || len(r.Meta.L) != 1 {
				return bad("%s that does not ask for everything", r.Kind)
			}
		}
		r.Query, r.Params = c.query, c.params
	case v.Sig == 0x0f && len(v.L) == 0:
		r.Kind = "reset"
	case v.Sig == 0x0e && len(v.L) == 0 && ver <= 2:
		r.Kind = "ack"
	case v.Sig == 0x02 && len(v.L) == 0 && ver >= 3:
		r.Kind = "goodbye"
	case v.Sig == 0x11 && len(v.L) == 1 && isMap(v.L[0]) && ver >= 3:
		r.Kind = "begin"
		r.Meta = v.L[0]
	case v.Sig == 0x12 && len(v.L) == 0 && ver >= 3:
		r.Kind = "commit"
	case v.Sig == 0x13 && len(v.L) == 0 && ver >= 3:
		r.Kind = "rollback"
	default:
		return bad("unknown message")
	}
	ev := Event{Kind: r.Kind, Query: r.Query, Params: r.Params, Meta: r.Meta, Fields: v.L, Sig: v.Sig, InTx: inTx, Chunks: chunks}

	if r.Kind == "goodbye" {
		c.event(ev)
		// nothing may follow
		var b [1]byte
		if n, _ := c.nc.Read(b[:]); n > 0 {
			c.violate("data after GOODBYE")
		}
		return false
	}
	if r.Kind == "reset" || (r.Kind == "ack" && c.state == "failed") {
		if c.state == "init" {
			return bad("RESET before INIT")
		}
		if c.state == "authfail" {
			// a refused client gets nothing more
			ev.Failed = true
			c.event(ev)
			return c.transmit(c.srv.Frame([]ps.V{Ignored()}), &Fault{Kind: "close", At: -1})
		}
		rep := c.ask(r)
		fail := failing(rep)
		ev.Failed = fail
		c.event(ev)
		if !fail {
			c.srv.mu.Lock()
			c.tx = false
			c.pending = nil
			c.committing = nil
			c.srv.mu.Unlock()
			c.state = "ready"
		}
		return c.answer(rep)
	}
	if c.state == "failed" || c.state == "authfail" {
		ev.Failed = true
		c.event(ev)
		if c.state == "authfail" {
			return c.transmit(c.srv.Frame([]ps.V{Ignored()}), &Fault{Kind: "close", At: -1})
		}
		return c.transmit(c.srv.Frame([]ps.V{Ignored()}), nil)
	}
	// legality
	switch r.Kind {
	case "init":
		if c.state != "init" {
			return bad("INIT twice")
		}
	case "run", "begin", "commit", "rollback":
		if c.state != "ready" {
			return bad("%s in state %q", r.Kind, c.state)
		}
		if r.Kind == "begin" && inTx {
			return bad("BEGIN in a transaction")
		}
		if (r.Kind == "commit" || r.Kind == "rollback") && !inTx {
			return bad("%s outside a transaction", r.Kind)
		}
		if r.Kind == "run" && inTx && len(r.Meta.L) > 0 {
			return bad("RUN with metadata inside a transaction")
		}
		if ver == 3 {
			if _, ok := r.Meta.Get("db"); ok {
				return bad("database name in version 3")
			}
		}
	case "pull", "discard":
		if c.state != "stream" {
			return bad("%s in state %q", r.Kind, c.state)
		}
	default:
		return bad("%s in state %q", r.Kind, c.state)
	}
	rep := c.ask(r)
	fail := failing(rep)
	ev.Failed = fail
	if fail {
		c.srv.mu.Lock()
		c.srv.log = append(c.srv.log, withConn(ev, c.ID))
		c.srv.mu.Unlock()
		c.state = "failed"
		if r.Kind == "init" {
			c.state = "authfail"
		}
		return c.answer(rep)
	}
	c.srv.mu.Lock()
	c.srv.log = append(c.srv.log, withConn(ev, c.ID))
	switch r.Kind {
	case "init":
		c.state = "ready"
		c.authed = true
	case "run":
		c.state = "stream"
		c.query, c.params = r.Query, r.Params
		c.autoRun = !inTx
		if inTx {
			c.pending = append(c.pending, Effect{c.ID, r.Query, r.Params})
		}
	case "begin", "commit", "rollback":
		c.query, c.params = "", ps.V{}
		c.autoRun = false
		if ver <= 2 {
			c.state = "stream"
		}
		switch r.Kind {
		case "begin":
			c.tx = true
		case "commit":
			c.tx = false
			if ver <= 2 {
				c.committing = c.pending // takes effect with the PULL
			} else {
				c.srv.effects = append(c.srv.effects, c.pending...)
			}
			c.pending = nil
		case "rollback":
			c.tx = false
			c.pending = nil
		}
	case "pull", "discard":
		c.state = "ready"
		c.srv.effects = append(c.srv.effects, c.committing...)
		c.committing = nil
		if c.autoRun {
			c.srv.effects = append(c.srv.effects, Effect{c.ID, c.query, c.params})
		}
		c.autoRun = false
	}
	c.srv.mu.Unlock()
	return c.answer(rep)
}

func withConn(e Event, id int) Event { e.Conn = id; return e }

func (c *Conn) ask(r *Request) *Reply {
	cfg := &c.srv.Cfg
	if r.Kind == "init" && cfg.CheckAuth {
		get := func(k string) string { v, _ := r.Meta.Get(k); return string(v.S) }
		if get("scheme") != "basic" || get("principal") != cfg.User || get("credentials") != cfg.Pass {
			return &Reply{Msgs: []ps.V{Failure("Neo.ClientError.Security.Unauthorized", "wrong credentials")}}
		}
	}
	var rep *Reply
	if cfg.Handler != nil {
		rep = cfg.Handler(r)
	}
	if rep == nil {
		rep = &Reply{}
	}
	if rep.Msgs == nil && rep.Raw == nil {
		rep.Msgs = []ps.V{Success(Empty())}
	}
	return rep
}

func failing(r *Reply) bool {
	for _, m := range r.Msgs {
		if m.K == ps.Struct && m.Sig == 0x7f {
			return true
		}
	}
	return false
}

func (c *Conn) answer(r *Reply) bool {
	if r.Delay > 0 {
		time.Sleep(r.Delay)
	}
	b := r.Raw
	if b == nil {
		b = c.srv.Frame(r.Msgs)
	}
	return c.transmit(b, r.Fault)
}
