package checks

import (
	"bytes"
	"fmt"
	stdlog "log"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/connection"
	blog "github.com/mindstand/go-bolt/log"
	"github.com/mindstand/gotime"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// quiet runs f with standard output and error caught and returns what was written.
func quiet(f func() error) (out string, err error) {
	name := []byte("captured\x00")
	fd, _, errno := syscall.Syscall(319 /* memfd_create, amd64 */, uintptr(unsafe.Pointer(&name[0])), 0, 0)
	var file *os.File
	if errno != 0 {
		if file, err = os.CreateTemp("", "captured"); err != nil {
			return "", prop.Infra("capture: %v", err)
		}
		_ = os.Remove(file.Name())
	} else {
		file = os.NewFile(fd, "captured")
	}
	defer file.Close()
	var saved [2]int
	for i := range saved {
		if saved[i], err = syscall.Dup(i + 1); err != nil {
			return "", prop.Infra("dup: %v", err)
		}
		syscall.CloseOnExec(saved[i])
	}
	for i := range saved {
		if err = syscall.Dup3(int(file.Fd()), i+1, 0); err != nil {
			return "", prop.Infra("dup3: %v", err)
		}
	}
	err = prop.Guard(f)
	for i := range saved {
		_ = syscall.Dup3(saved[i], i+1, 0)
		_ = syscall.Close(saved[i])
	}
	st, e := file.Stat()
	if e != nil {
		return "", prop.Infra("stat: %v", e)
	}
	b := make([]byte, st.Size())
	_, _ = file.ReadAt(b, 0)
	return string(b), err
}

// logCase is a level and things to do.
type logCase struct {
	Ver   int      `json:"ver"`
	Level string   `json:"level"` // "" : never set
	Calls []logMsg `json:"calls,omitempty"`
	Vals  []ps.V   `json:"vals"`
	Times []int64  `json:"times"`
	Query string   `json:"query"`
	Fail  string   `json:"fail,omitempty"`
	Bad   bool     `json:"bad,omitempty"`
	Cut   bool     `json:"cut,omitempty"`
	Own   bool     `json:"own"` // loggers replaced
	Pool  string   `json:"pool,omitempty"`
}

type logMsg struct {
	K    string `json:"k"` // error errorf info infof trace tracef bytes buf
	Text string `json:"text"`
}

func genLog(level bool) func(*rapid.T) logCase {
	return func(t *rapid.T) logCase {
		c := logCase{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Query: rapid.SampledFrom(append([]string{"RETURN '100%'", "%s%d%n"}, plainQueries...)).Draw(t, "q")}
		if !okQuery(c.Query) {
			c.Query += " "
		}
		if k := rapid.IntRange(0, 11).Draw(t, "pool"); k < 3 {
			c.Pool = []string{"pool", "routing", "lost"}[k]
		}
		c.Own = rapid.Bool().Draw(t, "own")
		if level {
			c.Level = rapid.SampledFrom([]string{"error", "info", "trace", "trace-bytes", "ERROR", "Info", "tRaCe", "Trace-Bytes", "none", "off", "nonsense", " trace", "warn", "<empty>", "debug", "errors", "trace-byte"}).Draw(t, "level")
		}
		n := rapid.IntRange(0, 5).Draw(t, "n")
		for i := 0; i < n; i++ {
			c.Vals = append(c.Vals, ps.GenV(t, ps.GenOpts{Depth: 2, GoTypes: true}))
			c.Times = append(c.Times, rapid.Int64Range(-5e9, 5e9).Draw(t, "sec"))
		}
		n = rapid.IntRange(0, 8).Draw(t, "ncalls")
		for i := 0; i < n; i++ {
			c.Calls = append(c.Calls, logMsg{rapid.SampledFrom([]string{"error", "errorf", "info", "infof", "trace", "tracef", "bytes", "buf"}).Draw(t, "k"), fmt.Sprintf("<%d:%s>", i, rapid.SampledFrom([]string{"a", "", "100%", "%s", "é", "x y"}).Draw(t, "text"))})
		}
		if rapid.IntRange(0, 2).Draw(t, "failk") == 0 {
			c.Fail = rapid.SampledFrom([]string{"run", "pull", "begin", "commit"}).Draw(t, "fail")
		}
		c.Bad, c.Cut = rapid.IntRange(0, 5).Draw(t, "bad") == 0, rapid.IntRange(0, 5).Draw(t, "cut") == 0
		return c
	}
}

func levelOf(s string) int {
	switch strings.ToLower(s) {
	case "error":
		return 1
	case "info":
		return 2
	case "trace":
		return 3
	case "trace-bytes":
		return 4
	}
	return 0
}

// syncBuf is a writer that may be shared.
type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) { s.mu.Lock(); defer s.mu.Unlock(); return s.b.Write(p) }
func (s *syncBuf) String() string              { s.mu.Lock(); defer s.mu.Unlock(); return s.b.String() }

// secret is the password of the connections.
const secret = "s3cret-Pa55word"

// logPool uses a pool.
func logPool(srv *fb.Server, query string) {
	host, port, _ := net.SplitHostPort(srv.Addr)
	p, _ := strconv.Atoi(port)
	client, err := goBolt.NewClient(goBolt.WithHostPort(host, p), goBolt.WithBasicAuth("neo4j", secret))
	if err != nil {
		return
	}
	pool, err := client.NewDriverPool(2)
	if err != nil {
		return
	}
	for i := 0; i < 3; i++ {
		conn, err := pool.Open(mode(i%2 == 0))
		if err != nil {
			continue
		}
		_, _, _ = conn.Query(query, nil)
		_, _ = conn.Begin()
		_ = pool.Reclaim(conn)
		_ = pool.Reclaim(conn)
	}
	_ = pool.Reclaim(nil)
	_ = pool.Close()
	_ = pool.Close()
	_, _ = pool.Open(mode(true))
}

// logRouting uses a routing pool whose cluster changes or fails.
func logRouting(cl *cluster, c logCase) {
	pool, err := newRouted(cl.members[0].srv.Addr, 4, "neo4j", secret, false, 2*time.Millisecond, "")
	if err != nil {
		return
	}
	use := func() {
		for i := 0; i < 4; i++ {
			conn, err := pool.Open(mode(i%2 == 0))
			if err != nil {
				continue
			}
			_, _, _ = conn.Query(c.Query, nil)
			if i == 1 {
				_, _ = conn.Begin()
			}
			_ = pool.Reclaim(conn)
		}
	}
	use()
	for _, how := range []string{"failure", "close", "malformed", ""} {
		cl.mu.Lock()
		cl.mode = how
		if c.Pool == "lost" {
			cl.members[1].down = how
			cl.members[0].role, cl.members[1].role = cl.members[1].role, cl.members[0].role
		}
		cl.mu.Unlock()
		time.Sleep(4 * time.Millisecond)
		use()
	}
	_ = pool.Close()
	_ = pool.Close()
}

func runLog(ctx *prop.Ctx, c logCase) error {
	lv := levelOf(c.Level)
	if c.Level == "<empty>" {
		blog.SetLevel("info")
		blog.SetLevel("")
		defer blog.SetLevel("none")
	} else if c.Level != "" {
		blog.SetLevel(c.Level)
		defer blog.SetLevel("none")
	}
	if int(blog.GetLevel()) != lv {
		return fmt.Errorf("after SetLevel(%q) the level is %d", c.Level, blog.GetLevel())
	}
	var bufs [5]syncBuf
	loggers := [5]**stdlog.Logger{nil, &blog.ErrorLog, &blog.InfoLog, &blog.TraceLog, &blog.TraceBytesLog}
	own := c.Own || lv > 0 // otherwise what is written must not reach the process' output
	if own {
		for i := 1; i < 5; i++ {
			i, old := i, *loggers[i]
			*loggers[i] = stdlog.New(&bufs[i], fmt.Sprintf("[%d]", i), 0)
			defer func() { *loggers[i] = old }()
		}
	}
	srv, err := start(ctx, fb.Config{Version: c.Ver, Handler: func(r *fb.Request) *fb.Reply {
		rep := &fb.Reply{}
		if r.Kind == c.Fail && r.Query != "x" {
			rep.Msgs = []ps.V{fb.Failure("Neo.X", "100% %s")}
			return rep
		}
		if r.Kind == "pull" && r.Query != "" {
			rep.Msgs = []ps.V{fb.Record(ps.ListV(ps.IntV(1), ps.StrV("%d"))), fb.Success(fb.Empty())}
			if c.Cut {
				rep.Fault = &fb.Fault{Kind: "close", At: 5}
			}
		}
		return rep
	}})
	if err != nil {
		return err
	}
	var cl *cluster
	if c.Pool == "routing" || c.Pool == "lost" {
		ver := c.Ver
		if ver < 3 {
			ver += 2
		}
		if cl, err = newCluster(ctx, ver, []string{"LEADER", "FOLLOWER"}, fb.Config{}); err != nil {
			return err
		}
	}
	out, err := quiet(func() error {
		for _, m := range c.Calls {
			switch m.K {
			case "error":
				blog.Error(m.Text, 7)
			case "errorf":
				blog.Errorf("%s|%d", m.Text, 7)
			case "info":
				blog.Info(m.Text, 7)
			case "infof":
				blog.Infof("%s|%d", m.Text, 7)
			case "trace":
				blog.Trace(m.Text, 7)
			case "tracef":
				blog.Tracef("%s|%d", m.Text, 7)
			case "bytes":
				blog.TraceBytes([]byte(m.Text))
			case "buf":
				blog.TraceBytesFromBuf(bytes.NewBufferString(m.Text))
				blog.TraceBytesFromBuf(nil)
			}
		}
		for ver := 1; ver <= 2; ver++ {
			cd := codecFor(ver)
			for i, v := range c.Vals {
				b, err := cd.marshal(toGo(v.Expand()))
				if err == nil {
					_, _ = cd.unmarshal(b)
				}
				_, _ = cd.unmarshal(append(b, 0xc7))
				n := ps.IntV(c.Times[i])
				z := ps.IntV(0)
				for _, w := range []ps.V{ps.StructV('D', n), ps.StructV('T', z, n), ps.StructV('t', ps.IntV(3600e9)), ps.StructV('F', n, z, ps.IntV(3600)),
					ps.StructV('f', n, z, ps.StrV("Europe/Berlin")), ps.StructV('f', n, z, ps.StrV("No/Zone")), ps.StructV('d', n, z), ps.StructV('E', z, n, n, z),
					ps.StructV('X', ps.IntV(7203), ps.V{K: ps.Float}, ps.V{K: ps.Float}), ps.StructV('N', n, ps.ListV(ps.StrV("L")), fb.Empty()),
					ps.StructV('R', n, n, n, ps.StrV("T"), fb.Empty()), ps.StructV('N', n), ps.StructV(0x55, n)} {
					if x, err := cd.unmarshal(ps.Chunk(ps.Encode(w), nil)); err == nil {
						_, _ = cd.marshal(x)
					}
				}
				tm := time.Unix(c.Times[i], 5).UTC()
				clk := gotime.NewClock(tm.Hour(), tm.Minute(), tm.Second(), 5, time.UTC)
				for _, x := range []interface{}{tm, time.Duration(c.Times[i]), clk, make(chan int), map[int]int{1: 2}} {
					if b, err := cd.marshal(x); err == nil {
						_, _ = cd.unmarshal(b)
					}
				}
			}
		}
		conn, err := connection.CreateBoltConn(connStr(srv.Addr, "neo4j", secret, nil))
		if err != nil {
			return prop.Infra("open: %v", err)
		}
		params := map[string]interface{}{}
		for i, v := range c.Vals {
			params[fmt.Sprint("p", i)] = toGo(v.Expand())
		}
		if c.Bad {
			params["bad"] = make(chan int)
		}
		_, _, _ = conn.Query(c.Query, params)
		_, _ = conn.Exec(c.Query, params)
		if tx, err := conn.Begin(); err == nil {
			_, _, _ = tx.Query(c.Query, nil)
			_ = tx.Commit()
		}
		if tx, err := conn.Begin(); err == nil {
			_ = tx.Rollback()
			_ = tx.Rollback()
		}
		_ = conn.ValidateOpen()
		_ = conn.MakeIdle()
		_ = conn.Close()
		_ = conn.Close()
		_, _, _ = conn.Query(c.Query, params)
		if c.Pool == "pool" {
			logPool(srv, c.Query)
		} else if cl != nil {
			logRouting(cl, c)
		}
		_, _ = connection.CreateBoltConn("bolt://127.0.0.1:1/%zz")
		_, _ = connection.CreateBoltConn("http://127.0.0.1:1")
		return nil
	})
	if err != nil {
		return err
	}
	if out != "" {
		return fmt.Errorf("at level %q (loggers replaced: %v) this was printed: %.300q", c.Level, own, out)
	}
	if !own {
		return nil
	}
	for i := 1; i < 5; i++ {
		s := bufs[i].String()
		if strings.Contains(s, secret) {
			return fmt.Errorf("at level %q the logger of level %d got the password: %.300q", c.Level, i, s[strings.Index(s, secret)/100*100:])
		}
		if i > lv {
			if s != "" {
				return fmt.Errorf("at level %q the logger of level %d got %.300q", c.Level, i, s)
			}
			continue
		}
		at := 0
		for _, m := range c.Calls {
			l, want := 0, ""
			switch m.K {
			case "error", "info", "trace":
				want = fmt.Sprintf("[%d]%s 7\n", map[string]int{"error": 1, "info": 2, "trace": 3}[m.K], m.Text)
				l = map[string]int{"error": 1, "info": 2, "trace": 3}[m.K]
			case "errorf", "infof", "tracef":
				l = map[string]int{"errorf": 1, "infof": 2, "tracef": 3}[m.K]
				want = fmt.Sprintf("[%d]%s|7\n", l, m.Text)
			default:
				l, want = 4, m.Text
			}
			if l != i {
				continue
			}
			j := strings.Index(s[at:], want)
			if j < 0 {
				return fmt.Errorf("at level %q the message %q did not appear in its logger (in order); it got %.300q", c.Level, want, s)
			}
			at += j + len(want)
			if i < 4 && strings.Count(s, want) > strings.Count(allWants(c.Calls, i), want) {
				return fmt.Errorf("the message %q was written more than once", want)
			}
		}
	}
	// what the driver itself reports
	if lv >= 2 && !strings.Contains(bufs[2].String(), "[2]") {
		return fmt.Errorf("at level %q opening a connection left no info message", c.Level)
	}
	if lv >= 3 && !strings.Contains(bufs[3].String(), "[3]") {
		return fmt.Errorf("at level %q statements left no trace message", c.Level)
	}
	return nil
}

func allWants(calls []logMsg, level int) string {
	var b strings.Builder
	for _, m := range calls {
		for i, k := range []string{"", "error", "info", "trace"} {
			if i == level && m.K == k {
				fmt.Fprintf(&b, "[%d]%s 7\n", i, m.Text)
			} else if i == level && m.K == k+"f" {
				fmt.Fprintf(&b, "[%d]%s|7\n", i, m.Text)
			}
		}
	}
	return b.String()
}

func init() {
	prop.Add(prop.Part{Prop: "C28", Name: "default",
		Rule:  "encoding and decoding generated values, queries with generated parameters, failures, disconnects and wrong use with the level never touched, with the default and with replaced loggers; standard output and error are caught; non-trivial: values, a failure or a disconnect",
		Quick: 4000, Thorough: 100000}, genLog(false), func(ctx *prop.Ctx, c logCase) error {
		if len(c.Vals) > 0 || c.Fail != "" || c.Cut {
			ctx.NonTrivial()
		}
		return runLog(ctx, c)
	})
	prop.Add(prop.Part{Prop: "C28", Name: "levels",
		Rule:  "the same at generated levels, with messages of every kind through the logging functions; non-trivial: a level that shows something and a message",
		Quick: 4000, Thorough: 100000}, genLog(true), func(ctx *prop.Ctx, c logCase) error {
		if levelOf(c.Level) > 0 && len(c.Calls) > 0 {
			ctx.NonTrivial()
		}
		ctx.Label("level-" + fmt.Sprint(levelOf(c.Level)))
		return runLog(ctx, c)
	})
}
