package checks

import (
	"fmt"
	"net"
	"net/url"
	"strconv"
	"strings"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/routing"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
)

// routeCase is a history of a routing pool on a cluster that does not change.
type routeCase struct {
	Ver    int       `json:"ver"`
	Size   int       `json:"size"`
	Roles  []string  `json:"roles"`
	Entry  int       `json:"entry"`
	Noise  int       `json:"noise,omitempty"` // variations of the overview
	Extras []string  `json:"extras,omitempty"`
	Client bool      `json:"client,omitempty"` // by client options, not by the routing package
	User   string    `json:"user"`
	Pass   string    `json:"pass"`
	Mode   string    `json:"mode,omitempty"` // the overview fails
	Ops    []routeOp `json:"ops"`
}

type routeOp struct {
	K    string `json:"k"`
	I    int    `json:"i,omitempty"`
	Read bool   `json:"read,omitempty"`
	How  string `json:"how,omitempty"`
	Rst  bool   `json:"rst,omitempty"`
	Word bool   `json:"word,omitempty"` // with a last word
}

var (
	leaderWords  = []string{"LEADER", "LEADER", "leader", "Leader"}
	readerWords  = []string{"FOLLOWER", "FOLLOWER", "READ_REPLICA", "READ_REPLICA", "follower", "Read_Replica"}
	otherRoles   = []string{"nobolt", "noboltleader", "noaddress", "role", "emptyrole"}
	overviewDown = []string{"failure", "failure2", "malformed", "close", "close2", "refuse"}
)

func genRoles(t *rapid.T, n string) []string {
	var roles []string
	for i := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, n+"leaders"); i > 0; i-- {
		roles = append(roles, rapid.SampledFrom(leaderWords).Draw(t, "word"))
	}
	for i := rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4}).Draw(t, n+"readers"); i > 0; i-- {
		roles = append(roles, rapid.SampledFrom(readerWords).Draw(t, "word"))
	}
	k := rapid.IntRange(0, len(roles)-1).Draw(t, "turn")
	return append(append([]string{}, roles[k:]...), roles[:k]...)
}

func genRoute(t *rapid.T) routeCase {
	c := routeCase{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Size: rapid.SampledFrom([]int{2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 17, 26}).Draw(t, "size"),
		Roles: genRoles(t, ""), Noise: rapid.IntRange(0, 50).Draw(t, "noise"), Client: rapid.IntRange(0, 2).Draw(t, "client") == 0,
		User: genCred(t, "user"), Pass: genCred(t, "pass")}
	c.Entry = rapid.IntRange(0, len(c.Roles)-1).Draw(t, "entry")
	if c.User == "" {
		c.User, c.Pass = "u", "p" // without a user nobody authenticates, see C22
	}
	for rapid.IntRange(0, 2).Draw(t, "extra") == 0 && len(c.Extras) < 3 {
		c.Extras = append(c.Extras, rapid.SampledFrom(otherRoles).Draw(t, "ex"))
	}
	if rapid.IntRange(0, 14).Draw(t, "nostart") == 0 {
		c.Mode = rapid.SampledFrom(append([]string{"noreader", "noleader"}, overviewDown...)).Draw(t, "mode")
		return c
	}
	ks := []string{"borrow", "borrow", "borrow", "borrow", "borrow", "borrow", "return", "return", "return", "return", "use", "begin", "begin", "work", "commit", "badq",
		"kill", "killidle", "killidle", "cclose", "again", "foreign", "foreignpool", "nil", "down", "up", "start", "full", "drain"}
	n := rapid.IntRange(3, 26).Draw(t, "nops")
	stopAt := -1
	if rapid.IntRange(0, 2).Draw(t, "stops") == 0 {
		stopAt = rapid.IntRange(n/3, n).Draw(t, "stopat")
	}
	again := -1 // started again
	if stopAt >= 0 && !c.Client && rapid.Bool().Draw(t, "restarts") {
		again = stopAt + rapid.IntRange(1, 5).Draw(t, "restartat")
	}
	for i := 0; i < n; i++ {
		if i == stopAt {
			c.Ops = append(c.Ops, routeOp{K: "stop"})
			continue
		}
		if i == again {
			c.Ops = append(c.Ops, routeOp{K: "restart"})
			if rapid.Bool().Draw(t, "stopagain") {
				stopAt, again = i+rapid.IntRange(1, 8).Draw(t, "stopagainat"), 0
			}
			continue
		}
		o := routeOp{K: rapid.SampledFrom(ks).Draw(t, "k"), I: rapid.IntRange(0, 11).Draw(t, "i")}
		switch o.K {
		case "borrow", "full":
			o.Read = rapid.Bool().Draw(t, "read")
		case "kill", "killidle":
			o.Rst, o.Word = rapid.Bool().Draw(t, "rst"), rapid.IntRange(0, 2).Draw(t, "word") == 0
		case "return":
			o.How = rapid.SampledFrom([]string{"", "", "", "", "", "failure", "close", "rst"}).Draw(t, "how")
		case "down":
			o.How = rapid.SampledFrom([]string{"refuse", "close", "rst"}).Draw(t, "how")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// routed is what both ways to a routing pool have in common.
type routed interface {
	Open(bolt_mode.AccessMode) (connection.IConnection, error)
	Reclaim(connection.IConnection) error
	Close() error
}

// direct adapts the pool of the routing package.
type direct struct{ routing.IRoutingPool }

func (d direct) Open(m bolt_mode.AccessMode) (connection.IConnection, error) {
	if m == bolt_mode.ReadMode {
		return d.BorrowRConnection()
	}
	return d.BorrowRWConnection()
}
func (d direct) Close() error { return d.Stop() }

// loanR is a connection the routing pool lent.
type loanR struct {
	conn   connection.IConnection
	sc     *fb.Conn
	m      *member
	read   bool
	dead   bool
	unsure bool
	tx     connection.ITransaction
}

type routeRun struct {
	ctx     *prop.Ctx
	c       routeCase
	cl      *cluster
	pool    routed
	loans   []*loanR
	idle    []*loanR // returned ones
	lost    map[string]bool
	stopped bool
	serial  int
	want    map[string]bool // statements that took effect
	ghosts  map[string]bool // statements that must not
	fresh   bool            // nothing has died
}

func authPart(user, pass string) string {
	if user == "" && pass == "" {
		return ""
	}
	return url.UserPassword(user, pass).String()
}

// newRouted makes a routing pool by way of the client or of the routing package.
func newRouted(entry string, size int, user, pass string, client bool, every time.Duration, query string) (routed, error) {
	if client {
		host, port, err := net.SplitHostPort(entry)
		if err != nil {
			return nil, prop.Infra("%v", err)
		}
		p, _ := strconv.Atoi(port)
		cl, err := goBolt.NewClient(goBolt.WithRouting(), goBolt.WithHostPort(host, p), goBolt.WithBasicAuth(user, pass))
		if err != nil {
			return nil, err
		}
		return cl.NewDriverPool(size)
	}
	u := url.URL{Scheme: "bolt+routing", Host: entry, RawQuery: strings.TrimPrefix(query, "?")}
	if user != "" {
		u.User = url.UserPassword(user, pass)
	}
	p, err := routing.NewRoutingPool(u.String(), size, every, authPart(user, pass), query)
	if err != nil {
		return nil, err
	}
	return direct{p}, p.Start()
}

func (r *routeRun) share(read bool) int {
	if read {
		return r.c.Size / 2
	}
	return r.c.Size - r.c.Size/2
}

func (r *routeRun) out(read bool) (n int) {
	for _, l := range r.loans {
		if l.read == read {
			n++
		}
	}
	return
}

func roleName(read bool) string {
	if read {
		return "read"
	}
	return "write"
}

// liveIdle counts working connections of a role that are not on loan, as the servers see them.
func (r *routeRun) liveIdle(read bool) (n int) {
	for _, m := range r.cl.members {
		if canonical(m.role) != roleName(read) {
			continue
		}
		for _, sc := range m.srv.Live() {
			on := false
			for _, l := range r.loans {
				on = on || l.sc == sc
			}
			if !on {
				n++
			}
		}
	}
	return
}

func (r *routeRun) anyDown(read bool) bool {
	r.cl.mu.Lock()
	defer r.cl.mu.Unlock()
	for _, m := range r.cl.members {
		if m.down != "" && canonical(m.role) == roleName(read) {
			return true
		}
	}
	return false
}

type asker interface {
	Query(string, connection.QueryParams) ([][]interface{}, connection.IResult, error)
}

// who asks a connection which one it is.
func (r *routeRun) who(c asker, tx bool) (*member, *fb.Conn, error) {
	r.serial++
	q := fmt.Sprintf("who %d", r.serial)
	if tx {
		r.ghosts[q] = true
	} else {
		r.want[q] = true
	}
	rows, _, err := c.Query(q, nil)
	if err != nil {
		return nil, nil, err
	}
	return r.cl.identify(rows, q)
}

// identify reads the answer to a statement.
func (cl *cluster) identify(rows [][]interface{}, q string) (*member, *fb.Conn, error) {
	if len(rows) != 1 || len(rows[0]) != 3 || rows[0][0] != q {
		return nil, nil, fmt.Errorf("the answer to %q is %v", q, rows)
	}
	id, ok := rows[0][1].(int64)
	who, ok2 := rows[0][2].(int64)
	if !ok || !ok2 || who < 0 || int(who) >= len(cl.members) {
		return nil, nil, fmt.Errorf("the answer to %q is %v", q, rows)
	}
	m := cl.members[who]
	conns := m.srv.Conns()
	if id < 0 || int(id) >= len(conns) {
		return nil, nil, fmt.Errorf("the answer to %q is %v", q, rows)
	}
	return m, conns[id], nil
}

func (r *routeRun) borrow(read bool) error {
	full := r.out(read) >= r.share(read)
	healthy := r.liveIdle(read)
	down := r.anyDown(read)
	accepted := r.cl.accepted()
	var conn connection.IConnection
	var oerr error
	if err := within(fmt.Sprintf("borrowing a %s connection with %d of %d on loan", roleName(read), r.out(read), r.share(read)), func() error {
		conn, oerr = r.pool.Open(mode(read))
		return nil
	}); err != nil {
		return err
	}
	if r.stopped {
		if oerr == nil {
			return fmt.Errorf("a stopped pool lent a connection")
		}
		if n := r.cl.accepted(); n != accepted {
			return fmt.Errorf("a stopped pool opened %d connections", n-accepted)
		}
		r.ctx.Label("borrow after stop")
		return nil
	}
	if full {
		r.ctx.Label("exhausted")
		if oerr == nil {
			return fmt.Errorf("a %s connection was lent although all %d are on loan", roleName(read), r.share(read))
		}
		return nil
	}
	if oerr != nil {
		// the server may see late that the pool has closed a connection
		if down && (healthy == 0 || r.cl.wait(2*time.Second, func() bool { return r.liveIdle(read) == 0 })) {
			r.ctx.Label("unreachable")
			return nil
		}
		return fmt.Errorf("borrowing a %s connection failed with %d of %d on loan and %d idle: %v", roleName(read), r.out(read), r.share(read), healthy, oneLine(oerr))
	}
	if conn == nil {
		return fmt.Errorf("borrowing gave neither a connection nor an error")
	}
	for _, l := range r.loans {
		if sameConn(l.conn, conn) {
			return fmt.Errorf("a connection on loan was lent again")
		}
	}
	for _, l := range r.idle {
		if sameConn(l.conn, conn) {
			if l.dead {
				return fmt.Errorf("a dead connection was lent")
			}
			if l.sc.InTx() {
				return fmt.Errorf("a connection was lent with a transaction in progress")
			}
			if l.read != read {
				return fmt.Errorf("a %s connection was lent for %s", roleName(l.read), roleName(read))
			}
		}
	}
	if !conn.ValidateOpen() {
		return fmt.Errorf("a connection was lent that reports not open")
	}
	m, sc, err := r.who(conn, false)
	if err != nil {
		return fmt.Errorf("a connection was lent that does not work: %v", oneLine(err))
	}
	if canonical(m.role) != roleName(read) {
		return fmt.Errorf("a %s loan is a connection to a %s", roleName(read), m.role)
	}
	for _, l := range r.loans {
		if l.sc == sc {
			return fmt.Errorf("two connections on loan use the same socket")
		}
	}
	var kept []*loanR
	for _, l := range r.idle {
		if l.sc != sc {
			kept = append(kept, l)
		}
	}
	r.idle = kept
	r.loans = append(r.loans, &loanR{conn: conn, sc: sc, m: m, read: read})
	return nil
}

func (r *routeRun) giveBack(l *loanR, how string) error {
	inTx := l.tx != nil && !l.dead
	if !inTx {
		how = ""
	}
	key := [2]int{l.m.i, l.sc.ID}
	r.cl.mu.Lock()
	r.cl.rb[key] = how
	r.cl.mu.Unlock()
	var rerr error
	if err := within("returning a connection", func() error { rerr = r.pool.Reclaim(l.conn); return nil }); err != nil {
		return err
	}
	r.cl.mu.Lock()
	delete(r.cl.rb, key)
	r.cl.mu.Unlock()
	var rest []*loanR
	for _, x := range r.loans {
		if x != l {
			rest = append(rest, x)
		}
	}
	r.loans = rest
	l.tx = nil
	if inTx {
		r.ctx.Label("returned in a transaction")
		r.ctx.NonTrivial()
		if l.sc.InTx() {
			return fmt.Errorf("a connection was returned and its transaction is still open")
		}
	}
	switch {
	case l.dead || how == "close" || how == "rst":
		r.ctx.Label("returned dead")
		r.ctx.NonTrivial()
		l.dead, r.fresh = true, false
		return r.released(l.sc, "a dead connection was returned")
	case r.stopped:
		return r.released(l.sc, "a connection was returned to a stopped pool")
	case how == "failure":
		r.fresh = false
		l.unsure = true
	case rerr != nil:
		return fmt.Errorf("returning a healthy connection failed: %v", oneLine(rerr))
	case !l.sc.Alive():
		return fmt.Errorf("a healthy connection was closed when returned")
	}
	r.idle = append(r.idle, l)
	return nil
}

func (r *routeRun) released(sc *fb.Conn, when string) error {
	if !sc.Server().Wait(5*time.Second, sc.Ended) {
		return fmt.Errorf("%s and its socket is still open", when)
	}
	return nil
}

func (r *routeRun) step(o routeOp) error {
	pick := func(ls []*loanR) *loanR {
		if len(ls) == 0 {
			return nil
		}
		return ls[o.I%len(ls)]
	}
	switch o.K {
	case "borrow":
		return r.borrow(o.Read)
	case "full":
		for n := r.share(o.Read) + 1; n > 0; n-- {
			if err := r.borrow(o.Read); err != nil {
				return err
			}
		}
	case "drain":
		for len(r.loans) > 0 {
			if err := r.giveBack(pick(r.loans), ""); err != nil {
				return err
			}
		}
	case "return":
		if l := pick(r.loans); l != nil {
			return r.giveBack(l, o.How)
		}
	case "use", "work":
		l := pick(r.loans)
		if l == nil || l.dead || o.K == "work" && l.tx == nil || o.K == "use" && l.tx != nil {
			return nil
		}
		var a asker = l.conn
		if o.K == "work" {
			a = l.tx
		}
		_, sc, err := r.who(a, o.K == "work")
		if err != nil {
			return fmt.Errorf("a connection on loan does not work: %v", oneLine(err))
		}
		if sc != l.sc {
			return fmt.Errorf("a connection changed its socket")
		}
	case "begin":
		l := pick(r.loans)
		if l == nil || l.dead || l.tx != nil {
			return nil
		}
		tx, err := l.conn.Begin()
		if err != nil {
			return fmt.Errorf("cannot begin on a connection on loan: %v", oneLine(err))
		}
		l.tx = tx
		if o.I%2 == 0 {
			if _, _, err := r.who(tx, true); err != nil {
				return fmt.Errorf("a transaction on a connection on loan does not work: %v", oneLine(err))
			}
		}
	case "commit":
		l := pick(r.loans)
		if l == nil || l.dead || l.tx == nil {
			return nil
		}
		r.serial++
		q := fmt.Sprintf("committed %d", r.serial)
		mark := len(l.m.srv.Effects())
		_, err := l.tx.Exec(q, nil)
		if err == nil {
			err = l.tx.Commit()
		}
		if err != nil {
			return fmt.Errorf("a transaction on a connection on loan does not commit: %v", oneLine(err))
		}
		l.tx = nil
		for _, e := range l.m.srv.Effects()[mark:] {
			r.want[e.Query] = true
			delete(r.ghosts, e.Query)
		}
		r.want[q] = true
	case "badq":
		l := pick(r.loans)
		if l == nil || l.dead {
			return nil
		}
		_, err := l.conn.Exec("bad", nil)
		if e := isFailure(err, "Neo.Test", "bad"); e != nil {
			return e
		}
		l.tx = nil
	case "kill":
		if l := pick(r.loans); l != nil && !l.dead {
			hangUp(l.sc, o.Rst, o.Word)
			l.dead, r.fresh = true, false
			r.ctx.Label("killed on loan")
		}
	case "killidle":
		if r.stopped {
			return nil
		}
		var cs []*fb.Conn
		for _, m := range r.cl.members {
			for _, sc := range m.srv.Live() {
				on := false
				for _, l := range r.loans {
					on = on || l.sc == sc
				}
				if !on {
					cs = append(cs, sc)
				}
			}
		}
		if len(cs) == 0 {
			return nil
		}
		sc := cs[o.I%len(cs)]
		for _, l := range r.idle {
			if l.sc == sc {
				l.dead = true
			}
		}
		hangUp(sc, o.Rst, o.Word)
		r.fresh = false
		r.ctx.Label("killed idle")
		r.ctx.NonTrivial()
	case "cclose":
		if l := pick(r.loans); l != nil && !l.dead {
			_ = l.conn.Close()
			l.dead, r.fresh = true, false
		}
	case "again":
		if l := pick(r.idle); l != nil {
			var rerr error
			if err := within("returning a connection twice", func() error { rerr = r.pool.Reclaim(l.conn); return nil }); err != nil {
				return err
			}
			if rerr == nil {
				return fmt.Errorf("returning a connection that is not on loan was accepted")
			}
			r.ctx.Label("returned twice")
			// it may have been closed like an unknown one
			r.fresh = false
		}
	case "foreign", "foreignpool":
		m := r.cl.members[o.I%len(r.cl.members)]
		if r.anyDown(true) || r.anyDown(false) {
			return nil
		}
		var conn connection.IConnection
		var err error
		if o.K == "foreign" {
			conn, err = connection.CreateBoltConn(connStr(m.srv.Addr, r.c.User, r.c.Pass, nil))
			if err != nil {
				return fmt.Errorf("cannot open a connection: %v", oneLine(err))
			}
		} else {
			p, err := newRouted(m.srv.Addr, 2, r.c.User, r.c.Pass, false, time.Hour, "")
			if err != nil {
				return fmt.Errorf("a second pool does not start: %v", oneLine(err))
			}
			defer p.Close()
			if conn, err = p.Open(mode(o.I%2 == 0)); err != nil {
				return fmt.Errorf("a second pool does not lend: %v", oneLine(err))
			}
			defer p.Reclaim(conn)
		}
		_, sc, err := r.who(conn, false)
		if err != nil {
			return fmt.Errorf("a connection does not work: %v", oneLine(err))
		}
		var rerr error
		if err := within("returning a foreign connection", func() error { rerr = r.pool.Reclaim(conn); return nil }); err != nil {
			return err
		}
		if rerr == nil {
			return fmt.Errorf("returning a connection of somebody else was accepted")
		}
		r.ctx.Label("foreign")
		r.ctx.NonTrivial()
		if err := r.released(sc, "an unknown connection was returned"); err != nil {
			return err
		}
	case "nil":
		var rerr error
		if err := within("returning nil", func() error { rerr = r.pool.Reclaim(nil); return nil }); err != nil {
			return err
		}
		if rerr == nil {
			return fmt.Errorf("returning nil was accepted")
		}
	case "down", "up":
		r.cl.mu.Lock()
		r.cl.members[o.I%len(r.cl.members)].down = o.How
		r.cl.mu.Unlock()
	case "start":
		d, ok := r.pool.(direct)
		if !ok || r.stopped {
			return nil
		}
		accepted := r.cl.accepted()
		var serr error
		if err := within("starting a running pool", func() error { serr = d.Start(); return nil }); err != nil {
			return err
		}
		if serr == nil {
			return fmt.Errorf("a running pool was started again")
		}
		if n := r.cl.accepted(); n != accepted {
			return fmt.Errorf("starting a running pool opened %d connections", n-accepted)
		}
	case "stop":
		if !r.stopped {
			return r.stop()
		}
	case "restart":
		d, ok := r.pool.(direct)
		if !ok || !r.stopped {
			return nil
		}
		down := r.anyDown(true) || r.anyDown(false)
		var serr error
		if err := within("starting a stopped pool", func() error { serr = d.Start(); return nil }); err != nil {
			return err
		}
		if serr != nil {
			if !down {
				return fmt.Errorf("starting a stopped pool failed: %v", oneLine(serr))
			}
			for _, m := range r.cl.members {
				for _, sc := range m.srv.Conns() {
					if !r.lent(sc) {
						if err := r.released(sc, "starting the pool failed"); err != nil {
							return err
						}
					}
				}
			}
			return nil
		}
		r.stopped, r.fresh = false, true
		r.ctx.Label("started again")
		if len(r.loans) > 0 {
			r.ctx.Label("started again with loans")
		}
		for _, l := range r.loans {
			r.fresh = r.fresh && !l.dead
		}
	}
	return nil
}

func (r *routeRun) lent(sc *fb.Conn) bool {
	for _, l := range r.loans {
		if l.sc == sc {
			return true
		}
	}
	return false
}

func (r *routeRun) stop() error {
	var serr error
	if err := within("stopping the pool", func() error { serr = r.pool.Close(); return nil }); err != nil {
		return err
	}
	if serr != nil && r.fresh {
		return fmt.Errorf("stopping the pool failed: %v", oneLine(serr))
	}
	r.stopped = true
	if len(r.loans) > 0 {
		r.ctx.Label("stopped with loans")
		r.ctx.NonTrivial()
	}
	on := map[*fb.Conn]bool{}
	for _, l := range r.loans {
		on[l.sc] = true
	}
	for _, m := range r.cl.members {
		for _, sc := range m.srv.Conns() {
			if !on[sc] {
				if err := r.released(sc, "the pool was stopped with an idle connection"); err != nil {
					return err
				}
			}
		}
	}
	r.idle = nil
	return nil
}

func (r *routeRun) check() error {
	if err := r.cl.violations(); err != nil {
		return err
	}
	for _, l := range r.loans {
		if !l.dead && !l.sc.Alive() && !r.stopped {
			return fmt.Errorf("a connection on loan was closed")
		}
	}
	for _, l := range r.idle {
		if !l.dead && l.sc.InTx() {
			return fmt.Errorf("an idle connection has a transaction in progress")
		}
	}
	for _, m := range r.cl.members {
		for _, e := range m.srv.Effects() {
			if !strings.EqualFold(e.Query, overview) && !r.want[e.Query] {
				return fmt.Errorf("%q took effect, which was not asked for (or rolled back)", e.Query)
			}
		}
	}
	if r.stopped {
		return nil
	}
	for _, read := range []bool{true, false} {
		count := func() int {
			n := r.liveIdle(read)
			for _, l := range r.loans {
				if l.read == read && l.sc.Alive() {
					n++
				}
			}
			return n
		}
		// the servers may see the end of others late
		r.cl.wait(5*time.Second, func() bool { return count() <= r.share(read) })
		n := count()
		if n > r.share(read) {
			return fmt.Errorf("%d %s connections are open, the pool has %d", n, roleName(read), r.share(read))
		}
		if r.fresh && n != r.share(read) {
			return fmt.Errorf("%d %s connections are open, the pool has %d", n, roleName(read), r.share(read))
		}
	}
	return nil
}

// spread checks how a pool was filled.
func (r *routeRun) spread() error {
	for _, read := range []bool{true, false} {
		lo, hi, sum := 1<<30, 0, 0
		for _, m := range r.cl.members {
			if canonical(m.role) != roleName(read) {
				continue
			}
			n := len(m.srv.Live())
			sum += n
			if n < lo {
				lo = n
			}
			if n > hi {
				hi = n
			}
		}
		if sum != r.share(read) {
			return fmt.Errorf("filled with %d %s connections instead of %d", sum, roleName(read), r.share(read))
		}
		if hi-lo > 1 {
			return fmt.Errorf("%d %s connections are not spread over the servers: between %d and %d", sum, roleName(read), lo, hi)
		}
	}
	return nil
}

// noBackground waits for the background of stopped pools to end.
func noBackground() error {
	end := time.Now().Add(5 * time.Second)
	for {
		s := goBoltStacks()
		if !strings.Contains(s, "go-bolt/routing") {
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("something still runs after the pool was stopped:\n%s", s)
		}
		time.Sleep(time.Millisecond)
	}
}

func runRoute(ctx *prop.Ctx, c routeCase) error {
	done := leakGuard()
	r := &routeRun{ctx: ctx, c: c, want: map[string]bool{}, ghosts: map[string]bool{}, fresh: true}
	cl, err := newCluster(ctx, c.Ver, c.Roles, fb.Config{CheckAuth: true, User: c.User, Pass: c.Pass})
	if err != nil {
		return err
	}
	r.cl = cl
	cl.noise, cl.order, cl.extras = c.Noise, c.Noise, c.Extras
	broken := c.Mode != ""
	switch c.Mode {
	case "noleader", "noreader":
		for _, m := range cl.members {
			if (canonical(m.role) == "read") == (c.Mode == "noreader") {
				m.role = "CORE"
			}
		}
	default:
		cl.mode = c.Mode
	}
	entry := cl.members[c.Entry].srv.Addr
	var serr error
	if err := within("starting", func() error {
		r.pool, serr = newRouted(entry, c.Size, c.User, c.Pass, c.Client, time.Hour, "")
		return nil
	}); err != nil {
		return err
	}
	ctx.Cleanup(func() {
		if r.pool != nil && !(broken && c.Client) {
			go r.pool.Close()
		}
	})
	if broken {
		ctx.NonTrivial()
		ctx.Label("does not start: " + c.Mode)
		if serr == nil {
			return fmt.Errorf("a pool started although the overview was %s", c.Mode)
		}
		if c.Client {
			r.pool = nil
		} else {
			for _, read := range []bool{true, false} {
				if err := within("borrowing", func() error {
					if _, err := r.pool.Open(mode(read)); err == nil {
						return fmt.Errorf("a pool that did not start lent a connection")
					}
					return nil
				}); err != nil {
					return err
				}
			}
		}
		if !cl.wait(5*time.Second, func() bool { return cl.open() == 0 }) {
			return fmt.Errorf("%d connections remain open of a pool that did not start", cl.open())
		}
		if err := cl.violations(); err != nil {
			return err
		}
		if err := noBackground(); err != nil {
			return err
		}
		cl.close()
		return done()
	}
	if serr != nil {
		if err := cl.violations(); err != nil {
			return fmt.Errorf("starting failed (%v): %v", oneLine(serr), err)
		}
		return fmt.Errorf("starting failed: %v", oneLine(serr))
	}
	// the connection that asked for the overview closes
	cl.wait(5*time.Second, func() bool { return cl.open() <= c.Size })
	if n := cl.open(); n != c.Size {
		return fmt.Errorf("%d connections are open after starting a pool of %d", n, c.Size)
	}
	if err := r.spread(); err != nil {
		return err
	}
	for i, o := range c.Ops {
		err := r.step(o)
		if err == nil {
			err = r.check()
		}
		if err != nil {
			if prop.IsInfra(err) {
				return err
			}
			return fmt.Errorf("operation %d (%s): %v", i, o.K, err)
		}
	}
	if err := r.end(); err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	if err := noBackground(); err != nil {
		return err
	}
	cl.close()
	return done()
}

// end checks that the pool can be used to its size, and that everything is
// released in the end.
func (r *routeRun) end() error {
	r.cl.mu.Lock()
	for _, m := range r.cl.members {
		m.down = ""
	}
	r.cl.mu.Unlock()
	for len(r.loans) > 0 {
		if err := r.giveBack(r.loans[0], ""); err != nil {
			return err
		}
	}
	if !r.stopped {
		for _, read := range []bool{true, false} {
			for i := 0; i <= r.share(read); i++ {
				if err := r.borrow(read); err != nil {
					return err
				}
			}
		}
		if err := r.check(); err != nil {
			return err
		}
		if err := r.stop(); err != nil {
			return err
		}
		for len(r.loans) > 0 {
			if err := r.giveBack(r.loans[0], ""); err != nil {
				return err
			}
		}
	}
	for _, read := range []bool{true, false} {
		if err := r.borrow(read); err != nil {
			return err
		}
	}
	if !r.cl.wait(5*time.Second, func() bool { return r.cl.open() == 0 }) {
		return fmt.Errorf("%d connections remain open after everything was returned and the pool stopped", r.cl.open())
	}
	return r.check()
}

// routeSize is a pool of a size that cannot be divided.
type routeSize struct {
	Size   int  `json:"size"`
	Client bool `json:"client,omitempty"`
}

func runRouteSize(ctx *prop.Ctx, c routeSize) error {
	ctx.NonTrivial()
	cl, err := newCluster(ctx, 4, []string{"LEADER", "FOLLOWER"}, fb.Config{CheckAuth: true, User: "u", Pass: "p"})
	if err != nil {
		return err
	}
	return within("making a pool without room", func() error {
		p, err := newRouted(cl.members[0].srv.Addr, c.Size, "u", "p", c.Client, time.Hour, "")
		if err != nil {
			return nil
		}
		defer p.Close()
		return fmt.Errorf("a routing pool of size %d was made", c.Size)
	})
}

func init() {
	prop.Add(prop.Part{Prop: "C21", Name: "histories",
		Rule:  "histories of borrowing, using, returning (in a transaction, twice, dead, foreign, nil), killing connections and stopping, on generated clusters of 2 to 7 members, by a routing pool of size 2 to 9; every statement is answered with the identity of its connection; non-trivial: a connection died or was returned in a transaction, was foreign, or the pool was stopped with loans or did not start",
		Quick: 16000, Thorough: 200000, Shards: 16},
		genRoute, runRoute)
	prop.Add(prop.Part{Prop: "C21", Name: "sizes",
		Rule:  "pools too small for both roles are refused; non-trivial: all",
		Quick: 60, Thorough: 500, Shards: 1},
		func(t *rapid.T) routeSize {
			return routeSize{Size: rapid.SampledFrom([]int{1, 0, -1, -2, -7, -1000}).Draw(t, "size"), Client: rapid.Bool().Draw(t, "client")}
		}, runRouteSize)
}
