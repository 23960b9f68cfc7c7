package checks

import (
	"fmt"
	"net"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// poolCase is a history of a driver pool.
type poolCase struct {
	Ver  int      `json:"ver"`
	Size int      `json:"size"`
	Ops  []poolOp `json:"ops"`
}

type poolOp struct {
	K    string `json:"k"`
	I    int    `json:"i,omitempty"`
	Rst  bool   `json:"rst,omitempty"`
	Word bool   `json:"word,omitempty"` // with a last word
	How  string `json:"how,omitempty"`
	Read bool   `json:"read,omitempty"`
}

func genPool(t *rapid.T) poolCase {
	c := poolCase{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Size: rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4, 5, 7, 7, 12, 20}).Draw(t, "size")}
	ks := []string{"open", "open", "open", "open", "open", "return", "return", "return", "return", "use", "begin", "begin", "work", "commit", "badq",
		"kill", "killidle", "killidle", "cclose", "again", "again", "foreign", "nil", "refuse", "accept", "blocked", "blocked", "badsize", "fill", "drain"}
	n := rapid.IntRange(4, 28).Draw(t, "nops")
	closeAt := -1
	if rapid.IntRange(0, 2).Draw(t, "closes") == 0 {
		closeAt = rapid.IntRange(n/3, n).Draw(t, "closeat")
	}
	for i := 0; i < n; i++ {
		if i == closeAt {
			k := rapid.SampledFrom([]string{"close", "close", "blockedclose"}).Draw(t, "closek")
			c.Ops = append(c.Ops, poolOp{K: k})
			continue
		}
		o := poolOp{K: rapid.SampledFrom(ks).Draw(t, "k"), I: rapid.IntRange(0, 7).Draw(t, "i")}
		switch o.K {
		case "open":
			o.Read = rapid.Bool().Draw(t, "read")
		case "kill", "killidle":
			o.Rst, o.Word = rapid.Bool().Draw(t, "rst"), rapid.IntRange(0, 2).Draw(t, "word") == 0
		case "return":
			o.How = rapid.SampledFrom([]string{"", "", "", "", "", "failure", "close", "rst"}).Draw(t, "how")
		case "refuse":
			o.How = rapid.SampledFrom([]string{"auth", "close", "rst"}).Draw(t, "how")
		case "badsize":
			o.I = rapid.SampledFrom([]int{0, -1, -1000}).Draw(t, "n")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// loan is a connection the pool lent at some time.
type loan struct {
	conn   connection.IConnection
	sc     *fb.Conn
	dead   bool // the server or the borrower closed it
	unsure bool // the pool may have kept it or not
	tx     connection.ITransaction
	closed bool // by the borrower
}

type poolRun struct {
	ctx     *prop.Ctx
	c       poolCase
	srv     *fb.Server
	pool    goBolt.IDriverPool
	mu      sync.Mutex
	refuse  string
	rbFault map[int]string // by server connection
	extra   int            // connections the pool doesn't own
	over    string
	loans   []*loan
	idle    []*loan
	past    []*loan // neither on loan nor idle
	closed  bool
	serial  int
	want    []string // effects, as queries
}

func (r *poolRun) handler(q *fb.Request) *fb.Reply {
	rep := &fb.Reply{}
	r.mu.Lock()
	refuse, limit := r.refuse, r.c.Size+r.extra
	fault := r.rbFault[q.Conn.ID]
	r.mu.Unlock()
	switch {
	case q.Kind == "init":
		// everything the client closed before this connection was asked for will show
		if !r.srv.Wait(5*time.Second, func() bool { return r.srv.Open() <= limit }) {
			r.mu.Lock()
			r.over = fmt.Sprintf("%d connections are open, the size is %d", r.srv.Open(), limit)
			r.mu.Unlock()
		}
		switch refuse {
		case "auth":
			rep.Msgs = []ps.V{fb.Failure("Neo.ClientError.Security.Unauthorized", "not now")}
		case "close", "rst":
			rep.Fault = &fb.Fault{Kind: refuse, At: 0}
		}
	case q.Kind == "rollback" && fault != "":
		if fault == "failure" {
			rep.Msgs = []ps.V{fb.Failure("Neo.Test", "no rollback")}
		} else {
			rep.Fault = &fb.Fault{Kind: fault, At: 0}
		}
	case q.Kind == "run" && q.Query == "bad":
		rep.Msgs = []ps.V{fb.Failure("Neo.Test", "bad")}
	case q.Kind == "pull" && q.Query != "":
		rep.Msgs = []ps.V{fb.Record(ps.ListV(ps.StrV(q.Query), ps.IntV(int64(q.Conn.ID)))), fb.Success(fb.Empty())}
	}
	return rep
}

const poolPatience = 20 * time.Second

// within runs f, which has to return.
func within(what string, f func() error) error {
	fin, err := prop.Within(poolPatience, f)
	if !fin {
		return fmt.Errorf("%s does not return", what)
	}
	return err
}

// who asks a connection which server connection it is.
func (r *poolRun) who(c interface {
	Query(string, connection.QueryParams) ([][]interface{}, connection.IResult, error)
}, tx bool) (int, error) {
	r.serial++
	q := fmt.Sprintf("who %d", r.serial)
	rows, _, err := c.Query(q, nil)
	if err != nil {
		return 0, err
	}
	if len(rows) != 1 || len(rows[0]) != 2 || rows[0][0] != q {
		return 0, fmt.Errorf("the answer to %q is %v", q, rows)
	}
	id, ok := rows[0][1].(int64)
	if !ok {
		return 0, fmt.Errorf("the answer to %q is %v", q, rows)
	}
	if !tx {
		r.want = append(r.want, q)
	}
	return int(id), nil
}

func healthy(ls []*loan) (n int) {
	for _, l := range ls {
		if !l.dead && !l.unsure {
			n++
		}
	}
	return
}

func drop(ls []*loan, l *loan) []*loan {
	var out []*loan
	for _, x := range ls {
		if x != l {
			out = append(out, x)
		}
	}
	return out
}

func sameConn(a, b connection.IConnection) bool { return a == b }

// lent checks a connection the pool has just lent and takes it into the model.
func (r *poolRun) lent(conn connection.IConnection) error {
	if conn == nil {
		return fmt.Errorf("open gave neither a connection nor an error")
	}
	for _, l := range r.loans {
		if sameConn(l.conn, conn) {
			return fmt.Errorf("a connection on loan was lent again")
		}
	}
	if len(r.loans) >= r.c.Size {
		return fmt.Errorf("a connection was lent although all %d are on loan", r.c.Size)
	}
	var known *loan
	for _, l := range append(append([]*loan{}, r.idle...), r.past...) {
		if sameConn(l.conn, conn) {
			known = l
		}
	}
	if known != nil && known.dead {
		return fmt.Errorf("a dead connection was lent")
	}
	if known == nil && healthy(r.idle) > 0 {
		return fmt.Errorf("a new connection was made although %d healthy ones were idle", healthy(r.idle))
	}
	if !conn.ValidateOpen() {
		return fmt.Errorf("a connection was lent that reports not open")
	}
	if known != nil && known.sc.InTx() {
		return fmt.Errorf("a connection was lent with a transaction in progress")
	}
	id, err := r.who(conn, false)
	if err != nil {
		return fmt.Errorf("a connection was lent that does not work: %v", oneLine(err))
	}
	l := known
	if l == nil {
		l = &loan{conn: conn, sc: r.srv.Conns()[id]}
		for _, o := range append(append(append([]*loan{}, r.idle...), r.past...), r.loans...) {
			if o.sc == l.sc {
				return fmt.Errorf("two connections lent at different times use the same socket")
			}
		}
	} else if id != l.sc.ID {
		return fmt.Errorf("a connection changed its socket")
	}
	if l.sc.InTx() {
		return fmt.Errorf("a connection was lent with a transaction in progress")
	}
	l.unsure = false
	l.tx = nil
	r.idle, r.past = drop(r.idle, l), drop(r.past, l)
	r.loans = append(r.loans, l)
	return nil
}

func mode(read bool) bolt_mode.AccessMode {
	if read {
		return bolt_mode.ReadMode
	}
	return bolt_mode.WriteMode
}

// openOne opens when there is room.
func (r *poolRun) openOne(read bool) error {
	var conn connection.IConnection
	var oerr error
	if err := within(fmt.Sprintf("opening with %d of %d on loan", len(r.loans), r.c.Size), func() error {
		conn, oerr = r.pool.Open(mode(read))
		return nil
	}); err != nil {
		return err
	}
	if r.closed {
		if oerr == nil {
			return fmt.Errorf("a closed pool lent a connection")
		}
		r.ctx.Label("open after close")
		return nil
	}
	if oerr != nil {
		if healthy(r.idle) > 0 {
			return fmt.Errorf("opening failed although %d healthy connections were idle: %v", healthy(r.idle), oneLine(oerr))
		}
		if r.refuse == "" {
			return fmt.Errorf("opening failed with %d of %d on loan: %v", len(r.loans), r.c.Size, oneLine(oerr))
		}
		r.ctx.Label("open refused")
		// what was idle and dead has been found out
		return nil
	}
	return r.lent(conn)
}

// giveBack returns a connection.
func (r *poolRun) giveBack(l *loan, how string) error {
	inTx := l.tx != nil && !l.dead
	if !inTx {
		how = ""
	}
	r.mu.Lock()
	r.rbFault[l.sc.ID] = how
	r.mu.Unlock()
	var rerr error
	if err := within("returning a connection", func() error { rerr = r.pool.Reclaim(l.conn); return nil }); err != nil {
		return err
	}
	r.loans = drop(r.loans, l)
	r.mu.Lock()
	delete(r.rbFault, l.sc.ID)
	r.mu.Unlock()
	l.tx = nil
	if inTx {
		r.ctx.Label("returned in a transaction")
		r.ctx.NonTrivial()
		if l.sc.InTx() {
			return fmt.Errorf("a connection was returned and its transaction is still open")
		}
	}
	switch {
	case l.dead || how == "close" || how == "rst":
		r.ctx.Label("returned dead")
		r.ctx.NonTrivial()
		l.dead = true
		r.past = append(r.past, l)
		return r.released(l, "a dead connection was returned")
	case rerr != nil:
		return fmt.Errorf("returning a healthy connection failed: %v", oneLine(rerr))
	case r.closed:
		r.past = append(r.past, l)
		l.dead = true
		return r.released(l, "a connection was returned to a closed pool")
	case how == "failure":
		l.unsure = true
		r.past = append(r.past, l)
	default:
		r.idle = append(r.idle, l)
	}
	return nil
}

func (r *poolRun) released(l *loan, when string) error {
	if !r.srv.Wait(5*time.Second, l.sc.Ended) {
		return fmt.Errorf("%s and its socket is still open", when)
	}
	return nil
}

func (r *poolRun) startBlocked() chan error {
	ch := make(chan error, 1)
	go func() {
		ch <- prop.Guard(func() error {
			conn, err := r.pool.Open(bolt_mode.WriteMode)
			if err != nil {
				return waited{err: err}
			}
			return waited{conn: conn}
		})
	}()
	return ch
}

// waited is what a waiting open came back with.
type waited struct {
	conn connection.IConnection
	err  error
}

func (w waited) Error() string { return "waited" }

func (r *poolRun) step(o poolOp) error {
	pick := func(ls []*loan) *loan {
		if len(ls) == 0 {
			return nil
		}
		return ls[o.I%len(ls)]
	}
	full := !r.closed && len(r.loans) == r.c.Size
	switch o.K {
	case "open":
		if full {
			return nil
		}
		return r.openOne(o.Read)
	case "fill":
		for !r.closed && len(r.loans) < r.c.Size {
			n := len(r.loans)
			if err := r.openOne(o.Read); err != nil {
				return err
			}
			if len(r.loans) == n {
				break // refused
			}
		}
		r.ctx.Label("all on loan")
	case "drain":
		for len(r.loans) > 0 {
			if err := r.giveBack(pick(r.loans), ""); err != nil {
				return err
			}
		}
	case "blocked", "blockedclose":
		if o.K == "blockedclose" && !full {
			return r.step(poolOp{K: "close"})
		}
		if !full {
			return nil
		}
		l := pick(r.loans)
		ch := r.startBlocked()
		select {
		case e := <-ch:
			w, ok := e.(waited)
			if !ok {
				return e
			}
			if w.err != nil {
				return fmt.Errorf("opening failed instead of waiting for a connection to be returned: %v", oneLine(w.err))
			}
			return fmt.Errorf("a connection was lent although all %d are on loan", r.c.Size)
		case <-time.After(3 * time.Millisecond):
		}
		r.ctx.NonTrivial()
		if o.K == "blockedclose" {
			r.ctx.Label("close with a waiter")
			if err := r.closePool(); err != nil {
				return err
			}
		} else {
			r.ctx.Label("waited")
			if err := r.giveBack(l, ""); err != nil {
				return err
			}
		}
		select {
		case e := <-ch:
			w, ok := e.(waited)
			switch {
			case !ok:
				return e
			case w.err == nil && r.closed:
				return fmt.Errorf("a waiting open got a connection from a closed pool")
			case w.err == nil:
				// it took what was returned, if that was usable
				return r.lent(w.conn)
			case r.closed || r.refuse != "":
				return nil
			default:
				return fmt.Errorf("a waiting open failed although a connection was returned: %v", oneLine(w.err))
			}
		case <-time.After(poolPatience):
			if r.closed {
				return fmt.Errorf("an open waiting for a connection did not end when the pool was closed")
			}
			return fmt.Errorf("an open waiting for a connection did not go on when one was returned")
		}
	case "close":
		if r.closed {
			return nil
		}
		return r.closePool()
	case "return":
		if l := pick(r.loans); l != nil {
			return r.giveBack(l, o.How)
		}
	case "use", "work":
		l := pick(r.loans)
		if l == nil || l.dead {
			return nil
		}
		if o.K == "work" && l.tx != nil {
			_, err := r.who(l.tx, true)
			return err
		}
		if l.tx != nil {
			return nil
		}
		id, err := r.who(l.conn, false)
		if err != nil {
			return fmt.Errorf("a connection on loan does not work: %v", oneLine(err))
		}
		if id != l.sc.ID {
			return fmt.Errorf("a connection changed its socket")
		}
	case "begin":
		l := pick(r.loans)
		if l == nil || l.dead || l.tx != nil {
			return nil
		}
		tx, err := l.conn.Begin()
		if err != nil {
			return fmt.Errorf("cannot begin on a connection on loan: %v", oneLine(err))
		}
		l.tx = tx
		if o.I%2 == 0 {
			if _, err := r.who(tx, true); err != nil {
				return fmt.Errorf("a transaction on a connection on loan does not work: %v", oneLine(err))
			}
		}
	case "commit":
		l := pick(r.loans)
		if l == nil || l.dead || l.tx == nil {
			return nil
		}
		r.serial++
		q := fmt.Sprintf("committed %d", r.serial)
		mark := len(r.srv.Effects())
		_, err := l.tx.Exec(q, nil)
		if err == nil {
			err = l.tx.Commit()
		}
		if err != nil {
			return fmt.Errorf("a transaction on a connection on loan does not commit: %v", oneLine(err))
		}
		l.tx = nil
		for _, e := range r.srv.Effects()[mark:] {
			r.want = append(r.want, e.Query)
		}
	case "badq":
		l := pick(r.loans)
		if l == nil || l.dead {
			return nil
		}
		_, err := l.conn.Exec("bad", nil)
		if e := isFailure(err, "Neo.Test", "bad"); e != nil {
			return e
		}
		l.tx = nil
	case "kill":
		if l := pick(r.loans); l != nil && !l.dead {
			hangUp(l.sc, o.Rst, o.Word)
			l.dead = true
			r.ctx.Label("killed on loan")
		}
	case "killidle":
		if l := pick(r.idle); l != nil && !l.dead {
			hangUp(l.sc, o.Rst, o.Word)
			l.dead = true
			r.ctx.Label("killed idle")
			r.ctx.NonTrivial()
		}
	case "cclose":
		if l := pick(r.loans); l != nil && !l.dead {
			_ = l.conn.Close()
			l.dead, l.closed = true, true
		}
	case "again":
		ls := append(append([]*loan{}, r.idle...), r.past...)
		if l := pick(ls); l != nil {
			var rerr error
			if err := within("returning a connection twice", func() error { rerr = r.pool.Reclaim(l.conn); return nil }); err != nil {
				return err
			}
			if rerr == nil {
				return fmt.Errorf("returning a connection that is not on loan was accepted")
			}
			r.ctx.Label("returned twice")
			r.ctx.NonTrivial()
			if !l.dead && !l.unsure && !r.closed && !l.sc.Alive() {
				return fmt.Errorf("returning an idle connection again closed it")
			}
		}
	case "foreign":
		if r.refuse != "" {
			return nil
		}
		r.mu.Lock()
		r.extra++
		r.mu.Unlock()
		conn, err := open(r.ctx, r.srv)
		if err != nil {
			return err
		}
		var rerr error
		if err := within("returning a foreign connection", func() error { rerr = r.pool.Reclaim(conn); return nil }); err != nil {
			return err
		}
		if rerr == nil {
			return fmt.Errorf("returning a connection of somebody else was accepted")
		}
		if _, err := r.who(conn, false); err != nil {
			return fmt.Errorf("a foreign connection does not work after its return was refused: %v", oneLine(err))
		}
		r.ctx.Label("foreign")
		if err := conn.Close(); err != nil {
			return fmt.Errorf("closing a foreign connection: %v", oneLine(err))
		}
		// extra stays: the server may see the end late
	case "nil":
		var rerr error
		if err := within("returning nil", func() error { rerr = r.pool.Reclaim(nil); return nil }); err != nil {
			return err
		}
		if rerr == nil {
			return fmt.Errorf("returning nil was accepted")
		}
	case "badsize":
		return within("making and using a pool without room", func() error {
			p, err := newPool(r.srv, o.I)
			if err != nil || p == nil {
				return nil
			}
			defer p.Close()
			conn, err := p.Open(bolt_mode.WriteMode)
			if err != nil {
				return nil
			}
			_ = p.Reclaim(conn)
			return fmt.Errorf("a pool of size %d lent a connection", o.I)
		})
	case "refuse", "accept":
		r.mu.Lock()
		r.refuse = o.How
		r.mu.Unlock()
	}
	return nil
}

func newPool(srv *fb.Server, size int) (goBolt.IDriverPool, error) {
	host, port, err := net.SplitHostPort(srv.Addr)
	if err != nil {
		return nil, prop.Infra("%v", err)
	}
	p, _ := strconv.Atoi(port)
	client, err := goBolt.NewClient(goBolt.WithHostPort(host, p), goBolt.WithBasicAuth("neo4j", "pw"))
	if err != nil {
		return nil, fmt.Errorf("cannot make a client: %v", oneLine(err))
	}
	return client.NewDriverPool(size)
}

func (r *poolRun) closePool() error {
	var cerr error
	if err := within("closing the pool", func() error { cerr = r.pool.Close(); return nil }); err != nil {
		return err
	}
	if cerr != nil {
		return fmt.Errorf("closing the pool failed: %v", oneLine(cerr))
	}
	r.closed = true
	if len(r.loans) > 0 {
		r.ctx.Label("closed with loans")
		r.ctx.NonTrivial()
	}
	for _, l := range append(append([]*loan{}, r.idle...), r.past...) {
		if err := r.released(l, "the pool was closed with an idle connection"); err != nil {
			return err
		}
		l.dead = true
	}
	r.past = append(r.past, r.idle...)
	r.idle = nil
	return nil
}

func runPool(ctx *prop.Ctx, c poolCase) error {
	done := leakGuard()
	r := &poolRun{ctx: ctx, c: c, rbFault: map[int]string{}}
	srv, err := start(ctx, fb.Config{Version: c.Ver, CheckAuth: true, User: "neo4j", Pass: "pw", Handler: r.handler})
	if err != nil {
		return err
	}
	r.srv = srv
	r.pool, err = newPool(srv, c.Size)
	if err != nil {
		return fmt.Errorf("cannot make a pool: %v", oneLine(err))
	}
	if srv.Accepted() > c.Size {
		return fmt.Errorf("%d connections opened by a pool of size %d", srv.Accepted(), c.Size)
	}
	ctx.Cleanup(func() { go r.pool.Close() })
	for i, o := range c.Ops {
		if err := r.step(o); err != nil {
			if prop.IsInfra(err) {
				return err
			}
			return fmt.Errorf("operation %d (%s): %v", i, o.K, err)
		}
		if err := r.check(); err != nil {
			return fmt.Errorf("operation %d (%s): %v", i, o.K, err)
		}
	}
	if err := r.end(); err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	srv.Close()
	return done()
}

func (r *poolRun) check() error {
	r.mu.Lock()
	over := r.over
	r.mu.Unlock()
	if over != "" {
		return fmt.Errorf("%s", over)
	}
	if v := r.srv.Violations(); len(v) > 0 {
		return fmt.Errorf("protocol violated: %s", v[0])
	}
	for _, l := range r.loans {
		if !l.dead && !l.sc.Alive() {
			return fmt.Errorf("a connection on loan was closed")
		}
	}
	for _, l := range r.idle {
		if !l.dead && l.sc.InTx() {
			return fmt.Errorf("an idle connection has a transaction in progress")
		}
	}
	eff := r.srv.Effects()
	for i, e := range eff {
		if i >= len(r.want) || r.want[i] != e.Query {
			return fmt.Errorf("%q took effect, which was not asked for (or rolled back)", e.Query)
		}
	}
	if len(eff) < len(r.want) {
		return fmt.Errorf("%q did not take effect", r.want[len(eff)])
	}
	return nil
}

// end checks that every place of the pool is usable, and that everything is
// released in the end.
func (r *poolRun) end() error {
	r.refuse = ""
	for len(r.loans) > 0 {
		if err := r.giveBack(r.loans[0], ""); err != nil {
			return err
		}
	}
	if !r.closed {
		for i := 0; i < r.c.Size; i++ {
			if err := r.openOne(i%2 == 0); err != nil {
				return err
			}
		}
		if err := r.step(poolOp{K: "blockedclose"}); err != nil {
			return err
		}
		for len(r.loans) > 0 {
			if err := r.giveBack(r.loans[0], ""); err != nil {
				return err
			}
		}
	}
	if err := r.openOne(false); err != nil {
		return err
	}
	if !r.srv.WaitAllEnded(5 * time.Second) {
		return fmt.Errorf("%d connections remain open after everything was returned and the pool closed", r.srv.Open())
	}
	return r.check()
}

// ---------------------------------------------------------------- concurrent

// crowd is a set of goroutines using one pool.
type crowd struct {
	Ver     int         `json:"ver"`
	Size    int         `json:"size"`
	Late    int         `json:"late,omitempty"`  // microseconds before an answer
	Close   int         `json:"close,omitempty"` // microseconds after which the pool is closed, 0 at the end
	Refuse  int         `json:"refuse,omitempty"`
	Reap    int         `json:"reap,omitempty"` // microseconds between connections the server closes of its own accord
	Rst     bool        `json:"rst,omitempty"`  // it resets them
	Workers [][]crowdOp `json:"workers"`
}

type crowdOp struct {
	Q    int    `json:"q,omitempty"`    // statements
	Wait int    `json:"wait,omitempty"` // microseconds, while holding the connection
	Tx   bool   `json:"tx,omitempty"`
	How  string `json:"how,omitempty"` // what happens at the end: "", leave (transaction), fail, cclose, kill, twice
}

func genCrowd(t *rapid.T) crowd {
	c := crowd{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Size: rapid.IntRange(1, 4).Draw(t, "size"),
		Late: rapid.SampledFrom([]int{0, 0, 50, 500}).Draw(t, "late")}
	n := rapid.IntRange(2, 7).Draw(t, "workers")
	for i := 0; i < n; i++ {
		c.Workers = append(c.Workers, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) crowdOp {
			return crowdOp{Q: rapid.IntRange(0, 2).Draw(t, "q"), Wait: rapid.SampledFrom([]int{0, 0, 0, 50, 300}).Draw(t, "wait"),
				Tx:  rapid.IntRange(0, 3).Draw(t, "tx") == 0,
				How: rapid.SampledFrom([]string{"", "", "", "", "leave", "fail", "cclose", "kill", "kill"}).Draw(t, "how")}
		}), 1, 6).Draw(t, "ops"))
	}
	if rapid.IntRange(0, 2).Draw(t, "closes") == 0 {
		c.Close = rapid.IntRange(1, 6000).Draw(t, "close")
	}
	if rapid.IntRange(0, 3).Draw(t, "refuses") == 0 {
		c.Refuse = rapid.IntRange(1, 5).Draw(t, "refuse")
	}
	return c
}

var errLost = fmt.Errorf("lost")

// reaper lets the server close connections of its own accord until the
// function returned is called, which tells how many.
func reaper(every int, rst bool, live func() []*fb.Conn) func() int {
	if every == 0 {
		return func() int { return 0 }
	}
	stop, done, n := make(chan bool), make(chan int, 1), 0
	go func() {
		for {
			select {
			case <-stop:
				done <- n
				return
			case <-time.After(time.Duration(every) * time.Microsecond):
			}
			if l := live(); len(l) > 0 {
				l[n%len(l)].HangUp(rst)
				n++
			}
		}
	}()
	return func() int { close(stop); return <-done }
}

func genDying(t *rapid.T) crowd {
	c := crowd{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Size: rapid.IntRange(1, 5).Draw(t, "size"),
		Reap: rapid.SampledFrom([]int{1, 20, 60, 150, 400}).Draw(t, "reap"), Rst: rapid.Bool().Draw(t, "rst"),
		Late: rapid.SampledFrom([]int{0, 0, 0, 50}).Draw(t, "late")}
	for i := rapid.IntRange(1, 6).Draw(t, "workers"); i > 0; i-- {
		ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) crowdOp {
			return crowdOp{Q: rapid.IntRange(0, 2).Draw(t, "q"), Tx: rapid.IntRange(0, 3).Draw(t, "tx") == 0,
				Wait: rapid.SampledFrom([]int{0, 0, 0, 50}).Draw(t, "wait"),
				How:  rapid.SampledFrom([]string{"", "", "", "leave", "fail", "cclose"}).Draw(t, "how")}
		}), 1, 6).Draw(t, "ops")
		var all []crowdOp
		for k := rapid.IntRange(1, 8).Draw(t, "times"); k > 0; k-- {
			all = append(all, ops...)
		}
		c.Workers = append(c.Workers, all)
	}
	return c
}

func runCrowd(ctx *prop.Ctx, c crowd) error {
	done := leakGuard()
	var mu sync.Mutex
	over := ""
	inits := 0
	var srv *fb.Server
	handler := func(q *fb.Request) *fb.Reply {
		rep := &fb.Reply{Delay: time.Duration(c.Late) * time.Microsecond}
		switch {
		case q.Kind == "init":
			if !srv.Wait(5*time.Second, func() bool { return srv.Open() <= c.Size }) {
				mu.Lock()
				over = fmt.Sprintf("%d connections are open, the size is %d", srv.Open(), c.Size)
				mu.Unlock()
			}
			mu.Lock()
			inits++
			if c.Refuse > 0 && inits%(c.Refuse+1) == 0 {
				rep.Msgs = []ps.V{fb.Failure("Neo.ClientError.Security.Unauthorized", "not now")}
			}
			mu.Unlock()
		case q.Kind == "run" && q.Query == "bad":
			rep.Msgs = []ps.V{fb.Failure("Neo.Test", "bad")}
		case q.Kind == "run" && q.Query == "die":
			rep.Fault = &fb.Fault{Kind: "close", At: 0}
		case q.Kind == "pull" && q.Query != "":
			rep.Msgs = []ps.V{fb.Record(ps.ListV(ps.StrV(q.Query), ps.IntV(int64(q.Conn.ID)))), fb.Success(fb.Empty())}
		}
		return rep
	}
	srv, err := start(ctx, fb.Config{Version: c.Ver, CheckAuth: true, User: "neo4j", Pass: "pw", Handler: func(q *fb.Request) *fb.Reply { return handler(q) }})
	if err != nil {
		return err
	}
	pool, err := newPool(srv, c.Size)
	if err != nil {
		return fmt.Errorf("cannot make a pool: %v", oneLine(err))
	}
	var closing, closed int32
	owners := map[int]string{}
	ptrs := map[connection.IConnection]string{}
	errs := make(chan error, len(c.Workers)+1)
	lost := func(err error) error {
		if c.Reap > 0 {
			return errLost // the server may have closed it
		}
		return err
	}
	worker := func(w int, ops []crowdOp) error {
		for i, o := range ops {
			me := fmt.Sprintf("worker %d loan %d", w, i)
			wasClosed := atomic.LoadInt32(&closed) != 0
			conn, err := pool.Open(mode(i%2 == 0))
			if err != nil {
				if atomic.LoadInt32(&closing) == 0 && c.Refuse == 0 && c.Reap == 0 {
					return fmt.Errorf("%s: opening failed: %v", me, oneLine(err))
				}
				continue
			}
			if conn == nil {
				return fmt.Errorf("%s: opening gave neither a connection nor an error", me)
			}
			if wasClosed {
				return fmt.Errorf("%s: a closed pool lent a connection", me)
			}
			mu.Lock()
			other := ptrs[conn]
			ptrs[conn] = me
			mu.Unlock()
			if other != "" {
				return fmt.Errorf("%s has been lent the connection that is on loan to %s", me, other)
			}
			id := -1
			err = func() error {
				ask := func(q connection.IQuery, k int) error {
					text := fmt.Sprintf("%s statement %d", me, k)
					rows, _, err := q.Query(text, nil)
					if err != nil {
						return lost(fmt.Errorf("%s failed: %v", text, oneLine(err)))
					}
					if len(rows) != 1 || len(rows[0]) != 2 || rows[0][0] != text {
						return fmt.Errorf("%s was answered %v", text, rows)
					}
					got, ok := rows[0][1].(int64)
					if !ok {
						return fmt.Errorf("%s was answered %v", text, rows)
					}
					if id >= 0 && int(got) != id {
						return fmt.Errorf("%s: the connection changed its socket", text)
					}
					if id < 0 {
						id = int(got)
						mu.Lock()
						o := owners[id]
						owners[id] = me
						mu.Unlock()
						if o != "" {
							return fmt.Errorf("%s uses the socket that is on loan to %s", me, o)
						}
					}
					return nil
				}
				if err := ask(conn, 0); err != nil {
					return err
				}
				if o.Tx || o.How == "leave" {
					tx, err := conn.Begin()
					if err != nil {
						return lost(fmt.Errorf("%s: cannot begin: %v", me, oneLine(err)))
					}
					for k := 0; k < o.Q; k++ {
						if err := ask(tx, k+1); err != nil {
							return err
						}
					}
					if o.How == "" {
						if err := tx.Commit(); err != nil {
							return lost(fmt.Errorf("%s: cannot commit: %v", me, oneLine(err)))
						}
					}
				} else {
					for k := 0; k < o.Q; k++ {
						if err := ask(conn, k+1); err != nil {
							return err
						}
					}
				}
				if o.Wait > 0 {
					time.Sleep(time.Duration(o.Wait) * time.Microsecond)
				}
				switch o.How {
				case "fail":
					_, err := conn.Exec("bad", nil)
					if e := isFailure(err, "Neo.Test", "bad"); e != nil {
						return lost(fmt.Errorf("%s: %v", me, e))
					}
				case "kill":
					if _, err := conn.Exec("die", nil); err == nil {
						return fmt.Errorf("%s: a cut off statement succeeded", me)
					}
				case "cclose":
					_ = conn.Close()
				}
				return nil
			}()
			if err != nil && err != errLost {
				return err
			}
			mu.Lock()
			delete(owners, id)
			delete(ptrs, conn)
			mu.Unlock()
			if err := pool.Reclaim(conn); err != nil && o.How != "kill" && o.How != "cclose" && c.Reap == 0 {
				return fmt.Errorf("%s: returning it failed: %v", me, oneLine(err))
			}
		}
		return nil
	}
	total := 0
	for w, ops := range c.Workers {
		total += len(ops)
		w, ops := w, ops
		go func() { errs <- prop.Guard(func() error { return worker(w, ops) }) }()
	}
	closeIt := func() error {
		atomic.StoreInt32(&closing, 1)
		err := pool.Close()
		atomic.StoreInt32(&closed, 1)
		if err != nil {
			return fmt.Errorf("closing the pool failed: %v", oneLine(err))
		}
		return nil
	}
	n := len(c.Workers)
	if c.Close > 0 {
		n++
		go func() {
			time.Sleep(time.Duration(c.Close) * time.Microsecond)
			errs <- prop.Guard(closeIt)
		}()
	}
	reaped := reaper(c.Reap, c.Rst, func() []*fb.Conn { return srv.Live() })
	deadline := time.After(patience)
	for i := 0; i < n; i++ {
		select {
		case err := <-errs:
			if err != nil {
				return err
			}
		case <-deadline:
			return fmt.Errorf("%d of %d goroutines hang\n%s", n-i, n, goBoltStacks())
		}
	}
	if k := reaped(); k > 0 {
		ctx.Label("connections lost")
		if c.Reap > 0 {
			ctx.NonTrivial()
		}
	}
	if c.Close > 0 {
		ctx.Label("closed while in use")
	}
	if total > c.Size && len(c.Workers) > c.Size {
		ctx.NonTrivial()
		ctx.Label("contended")
	}
	if c.Close == 0 {
		// every place is still there
		c.Refuse = 0
		var all []connection.IConnection
		for i := 0; i < c.Size; i++ {
			if err := within(fmt.Sprintf("opening with %d of %d on loan, at the end,", i, c.Size), func() error {
				conn, err := pool.Open(bolt_mode.WriteMode)
				if err != nil {
					return fmt.Errorf("at the end, opening failed: %v", oneLine(err))
				}
				all = append(all, conn)
				return nil
			}); err != nil {
				return err
			}
		}
		for _, conn := range all {
			if err := pool.Reclaim(conn); err != nil {
				return fmt.Errorf("at the end, returning failed: %v", oneLine(err))
			}
		}
		if err := within("closing the pool", closeIt); err != nil {
			return err
		}
	}
	mu.Lock()
	o := over
	mu.Unlock()
	if o != "" {
		return fmt.Errorf("%s", o)
	}
	if !srv.WaitAllEnded(5 * time.Second) {
		return fmt.Errorf("%d connections remain open after everything was returned and the pool closed", srv.Open())
	}
	if v := srv.Violations(); len(v) > 0 {
		return fmt.Errorf("protocol violated: %s", v[0])
	}
	srv.Close()
	return done()
}

func init() {
	prop.Add(prop.Part{Prop: "C19", Name: "histories",
		Rule:  "4-28 operations on a pool of 1-20 connections: open, use, begin, commit, failing statement, server or borrower closes (on loan or idle), return (in a transaction, with the rollback failed or cut off), return twice, return of a foreign connection or nil, server refuses connections for a while, open with all on loan, lending all and returning all, close with or without loans and waiters; at the end every place of the pool is tried; non-trivial: a death, a transaction left open, a second return, a wait or a close with loans",
		Quick: 6000, Thorough: 150000},
		genPool, runPool)
	prop.Add(prop.Part{Prop: "C20", Name: "crowd",
		Rule:  "2-7 goroutines with 1-6 loans each of a pool of 1-4 connections, in the race-detector build, with statements carrying their identity, transactions left open, failures, connections that die, logins refused at times, and in a third of the cases a close at a generated moment; non-trivial: more goroutines than connections",
		Quick: 2000, Thorough: 50000, Race: true},
		genCrowd, runCrowd)
	prop.Add(prop.Part{Prop: "C20", Name: "dying",
		Rule:  "1-6 goroutines with up to 48 loans each of a pool of 1-5 connections while the server closes or resets one of its connections every 1-400 us, whatever it is doing; calls may fail meanwhile, an answer must be the right one, and afterwards every place of the pool must be usable; non-trivial: connections were lost",
		Quick: 1500, Thorough: 40000},
		genDying, runCrowd)
	prop.Add(prop.Part{Prop: "C20", Name: "dying-race",
		Rule:  "as dying, in the race-detector build; non-trivial: connections were lost",
		Quick: 300, Thorough: 8000, Race: true},
		genDying, runCrowd)
}
