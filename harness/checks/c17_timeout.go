package checks

import (
	"fmt"
	"net"
	"net/url"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mindstand/go-bolt/connection"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// slow is a server that stalls or is slow at one point.
type slow struct {
	Ver     int    `json:"ver"`
	Kind    string `json:"kind"`  // stall, drip, idle
	Where   string `json:"where"` // accept tls handshake init noread, or the kind of request whose reply is slow
	At      int    `json:"at"`    // bytes of the reply sent before the stall
	Op      string `json:"op,omitempty"`
	Fail    bool   `json:"fail,omitempty"` // the operation is failed by the server; the stall is in the reset
	Timeout int    `json:"timeout"`        // milliseconds
	Gap     int    `json:"gap,omitempty"`  // milliseconds between pieces
	Rows    int    `json:"rows,omitempty"`
	Frags   []int  `json:"frags,omitempty"`
}

// openingPoint: the stall is met while opening.
func (s slow) opening() bool {
	switch s.Where {
	case "accept", "tls", "handshake", "init", "deaf":
		return true
	}
	return false
}

var slowOps = []string{"query", "exec", "begin", "txquery", "txexec", "commit", "rollback", "idle", "close"}

// repliesOf lists the requests an operation makes.
func repliesOf(op string, ver int) []string {
	tx := func(k string) []string {
		if ver <= 2 {
			return []string{k, "pull"}
		}
		return []string{k}
	}
	switch op {
	case "begin", "commit", "rollback":
		return tx(op)
	case "idle", "close":
		return tx("rollback")
	}
	return []string{"run", "pull"}
}

func genStall(t *rapid.T) slow {
	s := slow{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Kind: "stall"}
	if rapid.IntRange(0, 9).Draw(t, "phase") < 2 {
		s.Where = rapid.SampledFrom([]string{"accept", "deaf", "tls", "handshake", "init", "init"}).Draw(t, "where")
		s.At = rapid.IntRange(0, 3).Draw(t, "at")
		s.Timeout = 1000
		return s
	}
	s.Timeout = rapid.SampledFrom([]int{50, 100, 200}).Draw(t, "timeout")
	s.Op = rapid.SampledFrom(slowOps).Draw(t, "op")
	s.Where = rapid.SampledFrom(repliesOf(s.Op, s.Ver)).Draw(t, "where")
	s.At = rapid.IntRange(0, 60).Draw(t, "at")
	s.Rows = rapid.IntRange(0, 3).Draw(t, "rows")
	if s.Op == "query" && rapid.IntRange(0, 9).Draw(t, "noread") == 0 {
		s.Where, s.At = "noread", 0
	} else if s.Op != "idle" && s.Op != "close" && rapid.IntRange(0, 4).Draw(t, "fail") == 0 {
		s.Fail, s.Where = true, "reset"
	}
	return s
}

func genDrip(t *rapid.T) slow {
	s := slow{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Timeout: 1000}
	if rapid.IntRange(0, 3).Draw(t, "k") == 0 {
		s.Kind, s.Gap = "idle", 1300
		s.Op = rapid.SampledFrom([]string{"query", "exec", "begin"}).Draw(t, "op")
		return s
	}
	s.Kind = "drip"
	s.Gap = rapid.SampledFrom([]int{120, 160, 220}).Draw(t, "gap")
	s.Op = rapid.SampledFrom([]string{"open", "query", "exec", "begin"}).Draw(t, "op")
	s.Rows = rapid.IntRange(0, 6).Draw(t, "rows")
	s.Frags = rapid.SampledFrom([][]int{{1}, {2}, {3, 1}, {5}, {2, 7, 1}}).Draw(t, "frags")
	if s.Op == "open" {
		s.Frags = []int{rapid.SampledFrom([]int{1, 2}).Draw(t, "openfrag")}
	}
	return s
}

// fullListener is an address whose accept queue is full, so that connecting gets no answer.
func fullListener(ctx *prop.Ctx) (string, error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return "", prop.Infra("socket: %v", err)
	}
	ctx.Cleanup(func() { _ = syscall.Close(fd) })
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: fb.Loopback}); err != nil {
		return "", prop.Infra("bind: %v", err)
	}
	if err := syscall.Listen(fd, 0); err != nil {
		return "", prop.Infra("listen: %v", err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		return "", prop.Infra("getsockname: %v", err)
	}
	for i := 0; i < 4; i++ {
		f, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC|syscall.SOCK_NONBLOCK, 0)
		if err != nil {
			return "", prop.Infra("socket: %v", err)
		}
		ctx.Cleanup(func() { _ = syscall.Close(f) })
		_ = syscall.Connect(f, sa)
	}
	return fmt.Sprintf("%s:%d", net.IP(fb.Loopback[:]), sa.(*syscall.SockaddrInet4).Port), nil
}

const slack = 8 * time.Second

func runSlow(ctx *prop.Ctx, s slow) error {
	timeout := time.Duration(s.Timeout) * time.Millisecond
	armed := make(chan bool, 1)
	isArmed := func() bool {
		select {
		case v := <-armed:
			armed <- v
			return v
		default:
			return false
		}
	}
	cfg := fb.Config{Version: s.Ver}
	switch s.Where {
	case "deaf":
		cfg.Deaf = true
	case "tls":
		cfg.StallTLS = true
	case "handshake":
		cfg.Greet = &fb.Fault{Kind: "stall", At: s.At}
	case "noread":
		cfg.DeafAfter = 100
	}
	if s.Kind == "drip" {
		cfg.Frags, cfg.FragPause = s.Frags, time.Duration(s.Gap)*time.Millisecond
	}
	stalled := false
	cfg.Handler = func(r *fb.Request) *fb.Reply {
		rep := &fb.Reply{Msgs: []ps.V{fb.Success(fb.Empty())}}
		if r.Kind == "init" {
			rep.Msgs = []ps.V{fb.Success(ps.MapV("server", ps.StrV("Neo4j/4.0.0")))}
			if s.Where == "init" {
				rep.Fault = &fb.Fault{Kind: "stall", At: s.At * 5}
			}
			return rep
		}
		if s.Kind != "stall" {
			if r.Kind == "pull" && r.Query != "" {
				rep.Msgs = nil
				for i := 0; i < s.Rows; i++ {
					rep.Msgs = append(rep.Msgs, fb.Record(ps.ListV(ps.IntV(int64(i)))))
				}
				rep.Msgs = append(rep.Msgs, fb.Success(fb.Empty()))
			}
			return rep
		}
		if !isArmed() {
			return rep
		}
		if r.Kind == "pull" {
			rep.Msgs = nil
			for i := 0; i < s.Rows && r.Query != ""; i++ {
				rep.Msgs = append(rep.Msgs, fb.Record(ps.ListV(ps.IntV(int64(i)))))
			}
			rep.Msgs = append(rep.Msgs, fb.Success(fb.Empty()))
		}
		if s.Fail && r.Kind != "reset" {
			rep.Msgs = []ps.V{fb.Failure("Neo.ClientError.X", "x")}
			return rep
		}
		if r.Kind == s.Where && !stalled {
			stalled = true
			n := len(r.Conn.Server().Frame(rep.Msgs))
			at := s.At
			if at >= n {
				at = n - 1
			}
			rep.Fault = &fb.Fault{Kind: "stall", At: at}
		}
		return rep
	}
	leak := leakGuard()
	srv, err := fb.New(cfg)
	if err != nil {
		return prop.Infra("listen: %v", err)
	}
	ctx.Cleanup(srv.Close)
	addr := srv.Addr
	if s.Where == "accept" {
		if addr, err = fullListener(ctx); err != nil {
			return err
		}
		leak = leakGuard()
	}
	q := url.Values{}
	if s.opening() || s.Op == "open" || s.Kind == "idle" {
		q.Set("timeout", fmt.Sprint(s.Timeout/1000))
	}
	if s.Where == "tls" {
		q.Set("tls", "true")
		q.Set("tls_no_verify", "true")
	}
	var conn connection.IConnection
	var took time.Duration
	timed := func(what string, f func() error) (error, error) {
		var err error
		begin := time.Now()
		done, bad := prop.Within(timeout+slack+time.Duration(s.Gap)*400*time.Millisecond, func() error { err = f(); return nil })
		took = time.Since(begin)
		if bad != nil {
			return nil, bad
		}
		if !done {
			return nil, fmt.Errorf("%s with a timeout of %v: still blocked after %v\n%s", what, timeout, took, goBoltStacks())
		}
		return err, nil
	}
	err, bad := timed("opening", func() error {
		var e error
		conn, e = connection.CreateBoltConn(connStr(addr, "neo4j", "pw", q))
		return e
	})
	if bad != nil {
		return bad
	}
	if s.opening() {
		if err == nil {
			return fmt.Errorf("opening a server that stalls (%s) reported success", s.Where)
		}
		if took < timeout/2 {
			return fmt.Errorf("opening a server that stalls (%s) failed after %v, the timeout is %v: %s", s.Where, took, timeout, oneLine(err))
		}
		for _, c := range srv.Conns() {
			c.Release()
		}
		if s.Where != "accept" && !srv.WaitAllEnded(5*time.Second) {
			return fmt.Errorf("opening timed out, but the socket is still open")
		}
		srv.Close()
		return leak()
	}
	if err != nil {
		return fmt.Errorf("opening (slow by %d ms at a time, %v, timeout %v) failed after %v: %s", s.Gap, s.Frags, timeout, took, oneLine(err))
	}
	ctx.Cleanup(func() { srv.Close(); _ = conn.Close() })
	if s.Kind == "drip" && s.Op == "open" {
		if took > timeout {
			ctx.NonTrivial()
		}
		return nil
	}
	var tx connection.ITransaction
	if strings.HasPrefix(s.Op, "tx") || s.Op == "commit" || s.Op == "rollback" || s.Op == "idle" || s.Op == "close" {
		if tx, err = conn.Begin(); err != nil {
			return fmt.Errorf("begin: %s", oneLine(err))
		}
	}
	conn.SetTimeout(timeout)
	armed <- true
	if s.Kind == "idle" {
		time.Sleep(time.Duration(s.Gap) * time.Millisecond)
		if !conn.ValidateOpen() {
			return fmt.Errorf("a connection that was idle for %d ms reports not open", s.Gap)
		}
	}
	var rows [][]interface{}
	params := connection.QueryParams{}
	if s.Where == "noread" {
		params["x"] = strings.Repeat("x", 24<<20)
	}
	err, bad = timed(s.Op, func() error {
		var e error
		switch s.Op {
		case "query":
			rows, _, e = conn.Query("RETURN 1", params)
		case "exec":
			_, e = conn.Exec("RETURN 1", nil)
		case "txquery":
			rows, _, e = tx.Query("RETURN 1", nil)
		case "txexec":
			_, e = tx.Exec("RETURN 1", nil)
		case "begin":
			_, e = conn.Begin()
		case "commit":
			e = tx.Commit()
		case "rollback":
			e = tx.Rollback()
		case "idle":
			e = conn.MakeIdle()
		case "close":
			e = conn.Close()
		}
		return e
	})
	if bad != nil {
		return bad
	}
	if s.Kind != "stall" {
		if err != nil {
			return fmt.Errorf("%s against a server slow by %d ms at a time (%v; idle before: %v) failed after %v, the timeout is %v: %s", s.Op, s.Gap, s.Frags, s.Kind == "idle", took, timeout, oneLine(err))
		}
		if len(rows) != s.Rows && s.Op == "query" {
			return fmt.Errorf("%d rows instead of %d", len(rows), s.Rows)
		}
		if took > timeout || s.Kind == "idle" {
			ctx.NonTrivial()
		}
		return nil
	}
	if err == nil && s.Op != "close" {
		return fmt.Errorf("%s against a server that stalls in its reply to %s reported success", s.Op, s.Where)
	}
	if took < timeout/2 {
		return fmt.Errorf("%s against a server that stalls in its reply to %s failed after %v, the timeout is %v: %v", s.Op, s.Where, took, timeout, err)
	}
	if conn.ValidateOpen() {
		return fmt.Errorf("after a timeout in %s the connection reports open", s.Op)
	}
	return nil
}

// goBoltStacks are the goroutines inside the code under test.
func goBoltStacks() string {
	var out []string
	for _, g := range strings.Split(prop.AllStacks(), "\n\n") {
		if strings.Contains(g, "mindstand/go-bolt") {
			out = append(out, g)
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func init() {
	prop.Add(prop.Part{Prop: "C17", Name: "stall",
		Rule:  "the server stalls at a generated point: accept queue full, no answer at all, TLS handshake, version handshake, authentication, before or inside a reply to any request, in the reset after a failure, or it stops reading; non-trivial: all",
		Quick: 640, Thorough: 20000, Shards: 32},
		genStall, func(ctx *prop.Ctx, s slow) error { ctx.NonTrivial(); ctx.Label(s.Where); return runSlow(ctx, s) })
	prop.Add(prop.Part{Prop: "C17", Name: "slow",
		Rule:  "the server answers in pieces, each well within the timeout, or the connection was idle for longer than the timeout; non-trivial: the exchange took longer than the timeout or the connection was idle",
		Quick: 144, Thorough: 4000, Shards: 48},
		genDrip, func(ctx *prop.Ctx, s slow) error { ctx.Label(s.Kind + "-" + s.Op); return runSlow(ctx, s) })
}

// paused is a server that pauses before or inside its replies, never for as long as the timeout.
type paused struct {
	Ver   int         `json:"ver"`
	Op    string      `json:"op"`
	Rows  int         `json:"rows"`
	Waits [][]fb.Wait `json:"waits"` // by reply
}

// The timeout is long so that the pauses can come near to it without
// depending on how busy the machine is.
const (
	pausedTimeout = 5 * time.Second
	pausedMost    = 3000
)

func genPaused(t *rapid.T) paused {
	p := paused{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Rows: rapid.IntRange(0, 3).Draw(t, "rows"),
		Op: rapid.SampledFrom([]string{"open", "query", "query", "exec", "begin", "txquery", "txexec", "commit", "rollback", "idle"}).Draw(t, "op")}
	n := 2
	if p.Op != "open" {
		n = len(repliesOf(p.Op, p.Ver))
	}
	p.Waits = make([][]fb.Wait, n)
	for i := rapid.IntRange(2, 4).Draw(t, "n"); i > 0; i-- {
		r := rapid.IntRange(0, n-1).Draw(t, "reply")
		w := fb.Wait{Ms: rapid.SampledFrom([]int{700, 1500, 2200, 2600, pausedMost, pausedMost}).Draw(t, "ms")}
		if l := p.Waits[r]; len(l) > 0 {
			w.At = l[len(l)-1].At + rapid.IntRange(1, 4).Draw(t, "on")
		} else {
			w.At = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5}).Draw(t, "at")
		}
		p.Waits[r] = append(p.Waits[r], w)
	}
	return p
}

func runPaused(ctx *prop.Ctx, p paused) error {
	ctx.Label(p.Op)
	pauses := 0
	armed, i := p.Op == "open", 0 // both used between requests only
	next := func() *fb.Fault {
		if !armed || i >= len(p.Waits) {
			return nil
		}
		i++
		pauses += len(p.Waits[i-1])
		return &fb.Fault{Kind: "pause", Waits: p.Waits[i-1]}
	}
	cfg := fb.Config{Version: p.Ver}
	if f := next(); f != nil {
		cfg.Greet = f
	}
	var mu sync.Mutex
	cfg.Handler = func(r *fb.Request) *fb.Reply {
		mu.Lock()
		defer mu.Unlock()
		rep := &fb.Reply{Msgs: []ps.V{fb.Success(fb.Empty())}}
		if r.Kind == "init" {
			rep.Msgs = []ps.V{fb.Success(ps.MapV("server", ps.StrV("Neo4j/4.0.0")))}
		}
		if r.Kind == "pull" && r.Query == "RETURN 1" {
			rep.Msgs = nil
			for i := 0; i < p.Rows; i++ {
				rep.Msgs = append(rep.Msgs, fb.Record(ps.ListV(ps.IntV(int64(i)))))
			}
			rep.Msgs = append(rep.Msgs, fb.Success(fb.Empty()))
		}
		rep.Fault = next()
		return rep
	}
	srv, err := fb.New(cfg)
	if err != nil {
		return prop.Infra("listen: %v", err)
	}
	ctx.Cleanup(srv.Close)
	q := url.Values{"timeout": {fmt.Sprint(int(pausedTimeout / time.Second))}}
	var conn connection.IConnection
	var tx connection.ITransaction
	began := time.Now()
	describe := func(err error) error {
		return fmt.Errorf("%s against a server that pauses (%v, offsets and ms by reply) failed after %v, the timeout is %v: %s",
			p.Op, p.Waits, time.Since(began).Round(time.Millisecond), pausedTimeout, oneLine(err))
	}
	if conn, err = connection.CreateBoltConn(connStr(srv.Addr, "neo4j", "pw", q)); err != nil {
		return describe(err)
	}
	ctx.Cleanup(func() { srv.Close(); _ = conn.Close() })
	var rows [][]interface{}
	if p.Op != "open" {
		switch p.Op {
		case "txquery", "txexec", "commit", "rollback", "idle":
			if tx, err = conn.Begin(); err != nil {
				return fmt.Errorf("begin: %s", oneLine(err))
			}
		}
		mu.Lock()
		armed = true
		mu.Unlock()
		began = time.Now()
		switch p.Op {
		case "query":
			rows, _, err = conn.Query("RETURN 1", nil)
		case "exec":
			_, err = conn.Exec("RETURN 1", nil)
		case "txquery":
			rows, _, err = tx.Query("RETURN 1", nil)
		case "txexec":
			_, err = tx.Exec("RETURN 1", nil)
		case "begin":
			_, err = conn.Begin()
		case "commit":
			err = tx.Commit()
		case "rollback":
			err = tx.Rollback()
		case "idle":
			err = conn.MakeIdle()
		}
		if err != nil {
			return describe(err)
		}
		if (p.Op == "query" || p.Op == "txquery") && len(rows) != p.Rows {
			return fmt.Errorf("%d rows instead of %d", len(rows), p.Rows)
		}
	}
	if time.Since(began) > pausedTimeout {
		ctx.NonTrivial()
	}
	if !conn.ValidateOpen() {
		return fmt.Errorf("the connection reports not open after %s", p.Op)
	}
	return nil
}

func init() {
	prop.Add(prop.Part{Prop: "C17", Name: "pauses",
		Rule:  "a timeout of 5 s and 2-4 pauses of up to 3 s before or inside the replies to an operation, at generated offsets: the operation succeeds; non-trivial: the exchange took longer than the timeout",
		Quick: 128, Thorough: 2400, Shards: 64},
		genPaused, runPaused)
}
