package checks

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mindstand/go-bolt/connection"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
)

// routeCrowd is a set of goroutines using one or two routing pools while the
// cluster changes and the pools refresh.
type routeCrowd struct {
	Ver     int            `json:"ver"`
	Size    int            `json:"size"`
	Pools   int            `json:"pools"`
	Roles   []string       `json:"roles"`
	Entry   int            `json:"entry"`
	Every   int            `json:"every"`           // microseconds
	Late    int            `json:"late,omitempty"`  // microseconds before an answer
	Stop    int            `json:"stop,omitempty"`  // microseconds after which the pool is stopped, 0 at the end
	Stops   int            `json:"stops,omitempty"` // by how many
	Starts  bool           `json:"starts,omitempty"`
	Phases  []routePhase   `json:"phases,omitempty"`
	Workers [][]routeLoanC `json:"workers"`
}

type routePhase struct {
	Wait  int      `json:"wait"` // microseconds
	Roles []string `json:"roles"`
	Mode  string   `json:"mode,omitempty"`
	Down  []string `json:"down,omitempty"`
	Cut   bool     `json:"cut,omitempty"`
	Reap  int      `json:"reap,omitempty"` // every so many connections of every member is hung up
}

type routeLoanC struct {
	crowdOp
	Read bool `json:"read,omitempty"`
	Pool int  `json:"pool,omitempty"`
}

func hasBoth(roles []string) bool {
	w, r := false, false
	for _, role := range roles {
		w, r = w || canonical(role) == "write", r || canonical(role) == "read"
	}
	return w && r
}

func genRouteCrowd(t *rapid.T) routeCrowd {
	c := routeCrowd{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Size: rapid.SampledFrom([]int{2, 2, 3, 4, 5, 6, 8}).Draw(t, "size"),
		Pools: rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "pools"), Roles: genRoles(t, ""),
		Every: rapid.SampledFrom([]int{300, 1000, 3000, 3600000000}).Draw(t, "every"),
		Late:  rapid.SampledFrom([]int{0, 0, 50, 300}).Draw(t, "late")}
	c.Entry = rapid.IntRange(0, len(c.Roles)-1).Draw(t, "entry")
	n := rapid.IntRange(2, 6).Draw(t, "workers")
	bias := rapid.IntRange(0, 2).Draw(t, "bias") // 0 mixed, 1 read, 2 write
	for i := 0; i < n; i++ {
		c.Workers = append(c.Workers, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) routeLoanC {
			o := routeLoanC{crowdOp: crowdOp{Q: rapid.IntRange(0, 2).Draw(t, "q"), Wait: rapid.SampledFrom([]int{0, 0, 0, 50, 300, 1500}).Draw(t, "wait"),
				Tx:  rapid.IntRange(0, 3).Draw(t, "tx") == 0,
				How: rapid.SampledFrom([]string{"", "", "", "", "leave", "fail", "cclose", "kill"}).Draw(t, "how")},
				Read: rapid.Bool().Draw(t, "read"), Pool: rapid.IntRange(0, c.Pools-1).Draw(t, "pool")}
			if bias > 0 {
				o.Read = bias == 1
			}
			return o
		}), 1, 6).Draw(t, "ops"))
	}
	if rapid.IntRange(0, 2).Draw(t, "closes") == 0 {
		c.Stop = rapid.IntRange(1, 8000).Draw(t, "stop")
		c.Stops = rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "stops")
		c.Starts = rapid.IntRange(0, 3).Draw(t, "starts") == 0
	}
	if c.Every > 10000 || rapid.IntRange(0, 2).Draw(t, "changes") == 0 {
		return c
	}
	any := append([]string{"", "LEADER", "CANDIDATE"}, append(append([]string{}, leaderWords...), readerWords...)...)
	roles := append([]string{}, c.Roles...)
	for i := rapid.IntRange(1, 4).Draw(t, "phases"); i > 0; i-- {
		p := routePhase{Wait: rapid.IntRange(0, 3000).Draw(t, "wait")}
		switch rapid.IntRange(0, 2).Draw(t, "change") {
		case 0:
			a, b := rapid.IntRange(0, len(roles)-1).Draw(t, "a"), rapid.IntRange(0, len(roles)-1).Draw(t, "b")
			roles[a], roles[b] = roles[b], roles[a]
		case 1:
			roles[rapid.IntRange(0, len(roles)-1).Draw(t, "who")] = rapid.SampledFrom(any).Draw(t, "role")
		case 2:
			for j := range roles {
				roles[j] = rapid.SampledFrom(any).Draw(t, "role")
			}
		}
		if !hasBoth(roles) && rapid.IntRange(0, 3).Draw(t, "incomplete") > 0 {
			roles = append([]string{}, c.Roles...)
		}
		p.Roles = append([]string{}, roles...)
		if rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
			p.Mode = rapid.SampledFrom(overviewDown).Draw(t, "mode")
		}
		if rapid.IntRange(0, 4).Draw(t, "downs") == 0 {
			p.Down = make([]string, len(roles))
			p.Down[rapid.IntRange(0, len(roles)-1).Draw(t, "downwho")] = rapid.SampledFrom([]string{"refuse", "close", "rst"}).Draw(t, "down")
		}
		p.Cut = rapid.IntRange(0, 3).Draw(t, "cut") == 0
		p.Reap = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}).Draw(t, "reap")
		c.Phases = append(c.Phases, p)
	}
	return c
}

type rcPool struct {
	pool     routed
	stopping int32
	stopped  int32
}

type rcRun struct {
	ctx    *prop.Ctx
	c      routeCrowd
	cl     *cluster
	pools  []*rcPool
	had    []map[string]bool // roles of each member so far
	strict bool
	cuts   bool
	mu     sync.Mutex
	owners map[*fb.Conn]string
	ptrs   map[connection.IConnection]string
}

func (r *rcRun) worker(w int, ops []routeLoanC) error {
	for i, o := range ops {
		if err := r.loan(fmt.Sprintf("worker %d loan %d", w, i), o); err != nil {
			return err
		}
	}
	return nil
}

func (r *rcRun) loan(me string, o routeLoanC) error {
	p := r.pools[o.Pool]
	wasStopped := atomic.LoadInt32(&p.stopped) != 0
	conn, err := p.pool.Open(mode(o.Read))
	if err != nil {
		if r.strict && atomic.LoadInt32(&p.stopping) == 0 {
			return fmt.Errorf("%s: borrowing a %s connection failed although there are enough: %v", me, roleName(o.Read), oneLine(err))
		}
		return nil
	}
	if conn == nil {
		return fmt.Errorf("%s: borrowing gave neither a connection nor an error", me)
	}
	if wasStopped {
		return fmt.Errorf("%s: a stopped pool lent a connection", me)
	}
	r.mu.Lock()
	other := r.ptrs[conn]
	r.ptrs[conn] = me
	r.mu.Unlock()
	if other != "" {
		return fmt.Errorf("%s has been lent the connection that is on loan to %s", me, other)
	}
	var mine *fb.Conn
	failed := false // the server hung up
	ask := func(q asker, k int) error {
		text := fmt.Sprintf("%s statement %d", me, k)
		rows, _, err := q.Query(text, nil)
		if err != nil {
			if r.cuts {
				failed = true
				return nil
			}
			return fmt.Errorf("%s failed: %v", text, oneLine(err))
		}
		m, sc, err := r.cl.identify(rows, text)
		if err != nil {
			return err
		}
		if mine != nil && sc != mine {
			return fmt.Errorf("%s: the connection changed its socket", text)
		}
		if mine != nil {
			return nil
		}
		mine = sc
		r.mu.Lock()
		other, had := r.owners[sc], r.had[m.i][roleName(o.Read)]
		r.owners[sc] = me
		r.mu.Unlock()
		if other != "" {
			return fmt.Errorf("%s uses the socket that is on loan to %s", me, other)
		}
		if !had {
			return fmt.Errorf("%s: a %s loan is a connection to member %d, which never had that role", me, roleName(o.Read), m.i)
		}
		return nil
	}
	work := func() error {
		if err := ask(conn, 0); err != nil || failed {
			return err
		}
		var q asker = conn
		var tx connection.ITransaction
		if o.Tx || o.How == "leave" {
			t, err := conn.Begin()
			if err != nil {
				if r.cuts {
					failed = true
					return nil
				}
				return fmt.Errorf("%s: cannot begin: %v", me, oneLine(err))
			}
			q, tx = t, t
		}
		for k := 0; k < o.Q; k++ {
			if err := ask(q, k+1); err != nil || failed {
				return err
			}
		}
		if tx != nil && o.How == "" {
			if err := tx.Commit(); err != nil {
				if r.cuts {
					failed = true
					return nil
				}
				return fmt.Errorf("%s: cannot commit: %v", me, oneLine(err))
			}
		}
		if o.Wait > 0 {
			time.Sleep(time.Duration(o.Wait) * time.Microsecond)
		}
		switch o.How {
		case "fail":
			_, err := conn.Exec("bad", nil)
			if e := isFailure(err, "Neo.Test", "bad"); e != nil && !r.cuts {
				return fmt.Errorf("%s: %v", me, e)
			}
		case "kill":
			if _, err := conn.Exec("die", nil); err == nil {
				return fmt.Errorf("%s: a cut off statement succeeded", me)
			}
		case "cclose":
			_ = conn.Close()
		}
		return nil
	}
	if err := work(); err != nil {
		return err
	}
	r.mu.Lock()
	delete(r.ptrs, conn)
	delete(r.owners, mine)
	r.mu.Unlock()
	if err := p.pool.Reclaim(conn); err != nil && r.strict && atomic.LoadInt32(&p.stopping) == 0 && o.How != "kill" && o.How != "cclose" {
		return fmt.Errorf("%s: returning it failed: %v", me, oneLine(err))
	}
	return nil
}

func (r *rcRun) change(p routePhase) {
	time.Sleep(time.Duration(p.Wait) * time.Microsecond)
	cl := r.cl
	// a loan of the refresh that sees the new roles finds them here
	r.mu.Lock()
	for i, role := range p.Roles {
		r.had[i][canonical(role)] = true
	}
	r.mu.Unlock()
	cl.mu.Lock()
	for i, m := range cl.members {
		m.role, m.down = p.Roles[i], ""
		if p.Down != nil {
			m.down = p.Down[i]
		}
	}
	cl.mode = p.Mode
	cl.mu.Unlock()
	n := 0
	for i, m := range cl.members {
		for _, sc := range m.srv.Live() {
			n++
			if p.Cut && canonical(p.Roles[i]) == "" || p.Reap > 0 && n%p.Reap == 0 {
				sc.HangUp(i%2 == 0)
			}
		}
	}
}

func (r *rcRun) stop(p *rcPool) error {
	atomic.StoreInt32(&p.stopping, 1)
	_ = p.pool.Close() // closing a connection that has died may fail, and others may stop it
	atomic.StoreInt32(&p.stopped, 1)
	return nil
}

func runRouteCrowd(ctx *prop.Ctx, c routeCrowd) error {
	done := leakGuard()
	cl, err := newCluster(ctx, c.Ver, c.Roles, fb.Config{CheckAuth: true, User: "u", Pass: "p"})
	if err != nil {
		return err
	}
	cl.late = time.Duration(c.Late) * time.Microsecond
	r := &rcRun{ctx: ctx, c: c, cl: cl, owners: map[*fb.Conn]string{}, ptrs: map[connection.IConnection]string{}}
	for _, role := range c.Roles {
		r.had = append(r.had, map[string]bool{canonical(role): true})
	}
	r.strict = len(c.Workers) <= c.Size/2
	for _, p := range c.Phases {
		r.cuts = r.cuts || p.Cut || p.Reap > 0
		r.strict = r.strict && hasBoth(p.Roles) && p.Down == nil && p.Mode != "refuse" && !p.Cut && p.Reap == 0
	}
	for i := 0; i < c.Pools; i++ {
		p := &rcPool{}
		var serr error
		if err := within("starting", func() error {
			p.pool, serr = newRouted(cl.members[c.Entry].srv.Addr, c.Size, "u", "p", false, time.Duration(c.Every)*time.Microsecond, "")
			return nil
		}); err != nil {
			return err
		}
		if p.pool != nil {
			ctx.Cleanup(func() { go p.pool.Close() })
		}
		if serr != nil {
			return fmt.Errorf("starting failed: %v", oneLine(serr))
		}
		r.pools = append(r.pools, p)
	}
	var jobs []func() error
	for w, ops := range c.Workers {
		w, ops := w, ops
		jobs = append(jobs, func() error { return r.worker(w, ops) })
	}
	if len(c.Phases) > 0 {
		jobs = append(jobs, func() error {
			for _, p := range c.Phases {
				r.change(p)
			}
			return nil
		})
	}
	if c.Stop > 0 {
		for i := 0; i < c.Stops; i++ {
			jobs = append(jobs, func() error {
				time.Sleep(time.Duration(c.Stop) * time.Microsecond)
				return r.stop(r.pools[0])
			})
		}
		if c.Starts {
			jobs = append(jobs, func() error {
				// while it runs, to no effect
				d := r.pools[0].pool.(direct)
				if err := d.Start(); err == nil && atomic.LoadInt32(&r.pools[0].stopping) == 0 {
					return fmt.Errorf("a running pool was started again")
				} else if err == nil {
					return r.stop(r.pools[0]) // too late, it started again
				}
				return nil
			})
			// the start comes well before the stop
			if c.Stop < 4000 {
				c.Stop += 4000
			}
		}
	}
	errs := make(chan error, len(jobs))
	for _, j := range jobs {
		j := j
		go func() { errs <- prop.Guard(j) }()
	}
	deadline := time.After(patience)
	for i := range jobs {
		select {
		case err := <-errs:
			if err != nil {
				return err
			}
		case <-deadline:
			return fmt.Errorf("%d of %d goroutines hang\n%s", len(jobs)-i, len(jobs), goBoltStacks())
		}
	}
	if len(c.Workers) > 1 && c.Every < 10000 {
		ctx.NonTrivial()
	}
	if len(c.Phases) > 0 {
		ctx.Label("roles change")
	}
	for _, p := range c.Phases {
		if p.Reap > 0 {
			ctx.Label("connections die")
			break
		}
	}
	if c.Stop > 0 {
		ctx.Label("stopped while in use")
	}
	if r.strict {
		ctx.Label("enough for all")
	}
	if c.Pools > 1 {
		ctx.Label("two pools")
	}
	if err := cl.violations(); err != nil {
		return err
	}
	// when all is well again each pool lends all it has
	cl.mu.Lock()
	settle := len(c.Phases) > 0
	for i, m := range cl.members {
		m.role, m.down = c.Roles[i], ""
	}
	cl.mode = ""
	asked := cl.asked
	cl.mu.Unlock()
	running := 0
	for _, p := range r.pools {
		if p.stopped == 0 {
			running++
		}
	}
	if settle && running > 0 {
		// a refresh of each, and the loans it has to replace (one pool may be faster)
		if !cl.wait(10*time.Second, func() bool { return cl.asks() >= asked+2 }) {
			return fmt.Errorf("the overview was not asked for again")
		}
	}
	for i, p := range r.pools {
		if p.stopped != 0 {
			continue
		}
		if err := r.drain(p, settle); err != nil {
			return fmt.Errorf("pool %d at the end: %v", i, err)
		}
		if err := within("stopping the pool", func() error { return r.stop(p) }); err != nil {
			return err
		}
	}
	if !cl.wait(5*time.Second, func() bool { return cl.open() == 0 }) {
		return fmt.Errorf("%d connections remain open after everything was returned and the pool stopped", cl.open())
	}
	if err := noBackground(); err != nil {
		return err
	}
	n := cl.accepted()
	if c.Every < 10000 {
		time.Sleep(2 * time.Duration(c.Every) * time.Microsecond)
	}
	for _, p := range r.pools {
		for _, read := range []bool{true, false} {
			if err := within("borrowing", func() error {
				if _, err := p.pool.Open(mode(read)); err == nil {
					return fmt.Errorf("a stopped pool lent a connection")
				}
				return nil
			}); err != nil {
				return err
			}
		}
	}
	if got := cl.accepted(); got != n {
		return fmt.Errorf("a stopped pool made %d connections", got-n)
	}
	if err := cl.violations(); err != nil {
		return err
	}
	cl.close()
	return done()
}

// drain takes everything a pool has and returns it.
func (r *rcRun) drain(p *rcPool, settling bool) error {
	var all []connection.IConnection
	seen := map[*fb.Conn]bool{}
	for _, read := range []bool{true, false} {
		share := r.c.Size / 2
		if !read {
			share = r.c.Size - share
		}
		for i := 0; i <= share; i++ {
			var conn connection.IConnection
			var oerr error
			end := time.Now().Add(10 * time.Second)
			for {
				if err := within("borrowing", func() error { conn, oerr = p.pool.Open(mode(read)); return nil }); err != nil {
					return err
				}
				if oerr == nil || !settling || i == share || time.Now().After(end) {
					break
				}
				time.Sleep(time.Millisecond) // another refresh may be needed with two pools
			}
			if i == share {
				if oerr == nil {
					return fmt.Errorf("a %s connection was lent although all %d are on loan", roleName(read), share)
				}
				break
			}
			if oerr != nil {
				return fmt.Errorf("borrowing a %s connection failed with %d of %d on loan: %v", roleName(read), i, share, oneLine(oerr))
			}
			all = append(all, conn)
			if r.cuts {
				continue // it may just have died
			}
			q := fmt.Sprintf("last %d", i)
			rows, _, err := conn.Query(q, nil)
			if err != nil {
				return fmt.Errorf("a connection was lent that does not work: %v", oneLine(err))
			}
			_, sc, err := r.cl.identify(rows, q)
			if err != nil {
				return err
			}
			if seen[sc] {
				return fmt.Errorf("two connections on loan use the same socket")
			}
			seen[sc] = true
		}
	}
	for _, conn := range all {
		conn := conn
		if err := within("returning", func() error { _ = p.pool.Reclaim(conn); return nil }); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	prop.Add(prop.Part{Prop: "C23", Name: "crowd",
		Rule:  "2-6 goroutines with 1-6 loans each of one or two routing pools of size 2 to 8 on a cluster of 2 to 7 members, in the race-detector build, the pools refreshing every 0.3 to 3 ms: statements carrying their identity, transactions left open, failures, connections that die, roles, overview failures and unreachable members changing at generated moments, stops (by several) at a generated moment or at the end; non-trivial: several goroutines and refreshes",
		Quick: 2500, Thorough: 60000, Race: true},
		genRouteCrowd, runRouteCrowd)
}
