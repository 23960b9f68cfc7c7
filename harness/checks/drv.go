package checks

import (
	"fmt"
	"net"
	"net/url"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/mindstand/go-bolt/connection"
	berr "github.com/mindstand/go-bolt/errors"
	"github.com/mindstand/go-bolt/structures/messages"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// patience is how long to wait for something that must happen.
const patience = 30 * time.Second

// start starts a server that ends with the case.
func start(ctx *prop.Ctx, cfg fb.Config) (*fb.Server, error) {
	s, err := fb.New(cfg)
	if err != nil {
		return nil, prop.Infra("listen: %v", err)
	}
	ctx.Cleanup(s.Close)
	return s, nil
}

// connStr is a connection string for a server.
func connStr(addr, user, pass string, q url.Values) string {
	u := url.URL{Scheme: "bolt", Host: addr, RawQuery: q.Encode()}
	if user != "" || pass != "" {
		u.User = url.UserPassword(user, pass)
	}
	return u.String()
}

// open opens a connection, encrypted if the server wants that.
func open(ctx *prop.Ctx, s *fb.Server) (connection.IConnection, error) {
	q, err := tlsQuery(s.Cfg.TLS != nil)
	if err != nil {
		return nil, err
	}
	c, err := connection.CreateBoltConn(connStr(s.Addr, "neo4j", "pw", q))
	if err != nil {
		return nil, fmt.Errorf("cannot open a connection: %v", oneLine(err))
	}
	if c == nil {
		return nil, fmt.Errorf("opening gave neither a connection nor an error")
	}
	return c, nil
}

func oneLine(err error) string {
	s := err.Error()
	if i := strings.Index(s, "Stack Trace"); i > 0 {
		s = s[:i]
	}
	return strings.Join(strings.Fields(s), " ")
}

// cause is the failure message behind an error.
func cause(err error) (messages.FailureMessage, bool) {
	if e, ok := err.(*berr.Error); ok {
		err = e.InnerMost()
	}
	f, ok := err.(messages.FailureMessage)
	return f, ok
}

// isFailure checks that err exposes exactly the server's failure.
func isFailure(err error, code, msg string) error {
	if err == nil {
		return fmt.Errorf("success was reported instead of the server's failure %q", code)
	}
	f, ok := cause(err)
	if !ok {
		return fmt.Errorf("the error does not expose the server's failure %q: %s", code, oneLine(err))
	}
	if f.GetCode() != code || f.GetMessage() != msg {
		return fmt.Errorf("the server's failure (%q, %q) is exposed as (%q, %q)", code, msg, f.GetCode(), f.GetMessage())
	}
	return nil
}

// rows compares returned records.
func sameRows(want []ps.V, got [][]interface{}) error {
	for i := range want {
		if i >= len(got) {
			return fmt.Errorf("%d records returned, the server sent %d", len(got), len(want))
		}
		if err := sameVal(want[i], got[i]); err != nil {
			return fmt.Errorf("record %d: %v", i, err)
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d records returned, the server sent %d", len(got), len(want))
	}
	return nil
}

func sameVal(want ps.V, got interface{}) error {
	if l, ok := got.([]interface{}); ok && l == nil {
		got = []interface{}{}
	}
	return same(want.Expand(), got)
}

func sockets() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	n := 0
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

var gcCount int32

// leakGuard makes sure that no socket of the case stays open: it switches the
// collector off (it would close forgotten sockets) and compares the number of
// sockets before and after. Call done once the server is closed.
func leakGuard() (done func() error) {
	if atomic.AddInt32(&gcCount, 1)%64 == 1 {
		debug.SetMemoryLimit(3 << 29)
		debug.SetGCPercent(-1)
		runtime.GC()
		runtime.GC()
	}
	before := sockets()
	return func() error {
		end := time.Now().Add(5 * time.Second)
		for {
			n := sockets()
			if n <= before {
				return nil
			}
			if time.Now().After(end) {
				return fmt.Errorf("%d sockets of the client are still open", n-before)
			}
			time.Sleep(time.Millisecond)
		}
	}
}

// deadAddr is an address where nothing listens, and nothing will during the case.
func deadAddr(ctx *prop.Ctx) (string, error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return "", prop.Infra("socket: %v", err)
	}
	ctx.Cleanup(func() { _ = syscall.Close(fd) })
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: fb.Loopback}); err != nil {
		return "", prop.Infra("bind: %v", err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		return "", prop.Infra("getsockname: %v", err)
	}
	return fmt.Sprintf("%s:%d", net.IP(fb.Loopback[:]), sa.(*syscall.SockaddrInet4).Port), nil
}

// genPattern draws chunk or fragment sizes.
func genPattern(t *rapid.T, l string) []int {
	switch rapid.IntRange(0, 4).Draw(t, l+"k") {
	case 0, 1:
		return nil
	case 2:
		return []int{1}
	default:
		return rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 16, 100, 1000, 9000, 65535}), 1, 4).Draw(t, l)
	}
}

// genCode draws the code and message of a failure.
func genCode(t *rapid.T) (string, string) {
	code := rapid.SampledFrom([]string{"Neo.ClientError.Statement.SyntaxError", "Neo.TransientError.Transaction.DeadlockDetected", "Neo.ClientError.Schema.ConstraintValidationFailed", "", "x", "100%d"}).Draw(t, "code")
	msg := rapid.SampledFrom([]string{"boom", "", "100% of %s are %d", "ünïcödé\nsecond line", "[%v] ]; message: ["}).Draw(t, "msg")
	return code, msg
}

func hangUp(sc *fb.Conn, rst, word bool) {
	if word {
		sc.Farewell()
	} else {
		sc.HangUp(rst)
	}
}
