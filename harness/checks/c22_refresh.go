package checks

import (
	"crypto/tls"
	"fmt"
	"net/url"
	"strings"
	"time"

	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// topoCase is a sequence of topologies of a cluster under a routing pool that
// refreshes often.
type topoCase struct {
	Ver    int         `json:"ver"`
	Size   int         `json:"size"`
	N      int         `json:"n"` // members
	Entry  int         `json:"entry"`
	User   string      `json:"user"`
	Pass   string      `json:"pass"`
	TLS    bool        `json:"tls,omitempty"`
	Every  int         `json:"every"` // microseconds
	Phases []topoPhase `json:"phases"`
}

type topoPhase struct {
	Roles  []string `json:"roles"` // "" not in the cluster
	Mode   string   `json:"mode,omitempty"`
	Down   []string `json:"down,omitempty"` // per member, new connections
	Extras []string `json:"extras,omitempty"`
	Noise  int      `json:"noise"`
	Cut    bool     `json:"cut,omitempty"` // members that leave hang up
	Hold   []bool   `json:"hold,omitempty"`
	Tx     bool     `json:"tx,omitempty"`
}

func genTopo(t *rapid.T) topoCase {
	c := topoCase{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Size: rapid.SampledFrom([]int{2, 3, 4, 5, 6, 8}).Draw(t, "size"),
		N: rapid.IntRange(2, 5).Draw(t, "n"), User: genCred(t, "user"), Pass: genCred(t, "pass"),
		TLS: rapid.IntRange(0, 4).Draw(t, "tls") == 0, Every: rapid.SampledFrom([]int{1000, 3000, 6000}).Draw(t, "every")}
	c.Entry = rapid.IntRange(0, c.N-1).Draw(t, "entry")
	if c.User == "" || rapid.IntRange(0, 5).Draw(t, "nocred") == 0 {
		c.User, c.Pass = "", ""
	}
	roles := make([]string, c.N)
	any := append([]string{"", "", "LEADER", "CANDIDATE"}, append(append([]string{}, leaderWords...), append(readerWords, readerWords...)...)...)
	n := rapid.IntRange(2, 7).Draw(t, "phases")
	for i := 0; i < n; i++ {
		p := topoPhase{Noise: rapid.IntRange(0, 50).Draw(t, "noise")}
		switch k := rapid.IntRange(0, 9).Draw(t, "change"); {
		case i == 0 || k < 4:
			// anything
			for j := range roles {
				roles[j] = rapid.SampledFrom(any).Draw(t, "role")
			}
		case k < 7:
			j := rapid.IntRange(0, c.N-1).Draw(t, "who")
			roles[j] = rapid.SampledFrom(any).Draw(t, "role")
		case k < 9:
			// two members swap
			a, b := rapid.IntRange(0, c.N-1).Draw(t, "a"), rapid.IntRange(0, c.N-1).Draw(t, "b")
			roles[a], roles[b] = roles[b], roles[a]
		}
		if i == 0 || rapid.IntRange(0, 3).Draw(t, "complete") > 0 {
			w, r := -1, -1
			for j, role := range roles {
				switch canonical(role) {
				case "write":
					w = j
				case "read":
					r = j
				}
			}
			k := rapid.IntRange(0, c.N-1).Draw(t, "fix")
			if w < 0 {
				if k == r {
					k = (k + 1) % c.N
				}
				roles[k], w = "LEADER", k
			}
			for j := 0; r < 0 && j < c.N; j++ {
				if (j+k)%c.N != w {
					r = (j + k) % c.N
					roles[r] = "FOLLOWER"
				}
			}
		}
		p.Roles = append([]string{}, roles...)
		if i > 0 {
			if rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
				p.Mode = rapid.SampledFrom(overviewDown).Draw(t, "mode")
			}
			if rapid.IntRange(0, 4).Draw(t, "downs") == 0 {
				p.Down = make([]string, c.N)
				p.Down[rapid.IntRange(0, c.N-1).Draw(t, "downwho")] = rapid.SampledFrom([]string{"refuse", "close", "rst"}).Draw(t, "down")
			}
			p.Cut = rapid.IntRange(0, 2).Draw(t, "cut") == 0
			p.Hold = rapid.SliceOfN(rapid.Bool(), 0, 3).Draw(t, "hold")
			p.Tx = rapid.Bool().Draw(t, "tx")
		}
		for rapid.IntRange(0, 3).Draw(t, "extra") == 0 && len(p.Extras) < 2 {
			p.Extras = append(p.Extras, rapid.SampledFrom(otherRoles).Draw(t, "ex"))
		}
		c.Phases = append(c.Phases, p)
	}
	return c
}

type topoRun struct {
	ctx    *prop.Ctx
	c      topoCase
	cl     *cluster
	pool   routed
	known  []string // roles of the last overview that was answered
	loans  []*loanR
	serial int
}

func (r *topoRun) share(read bool) int {
	if read {
		return r.c.Size / 2
	}
	return r.c.Size - r.c.Size/2
}

func (r *topoRun) down(i int) bool {
	r.cl.mu.Lock()
	defer r.cl.mu.Unlock()
	return r.cl.members[i].down != "" || r.cl.mode == "refuse"
}

// unsettled says what is not as it should be after a refresh.
func (r *topoRun) unsettled(exact bool) string {
	on := map[*fb.Conn]bool{}
	var out [2]int
	for _, l := range r.loans {
		on[l.sc] = true
		if l.read {
			out[1]++
		} else {
			out[0]++
		}
	}
	var idle [2]int
	var up [2]bool
	for i, m := range r.cl.members {
		n := 0
		for _, sc := range m.srv.Live() {
			if !on[sc] {
				n++
			}
		}
		switch canonical(r.known[i]) {
		case "write":
			idle[0] += n
			up[0] = up[0] || !r.down(i)
		case "read":
			idle[1] += n
			up[1] = up[1] || !r.down(i)
		default:
			if n > 0 {
				return fmt.Sprintf("%d idle connections to member %d, whose role is %q", n, i, r.known[i])
			}
		}
	}
	for k := range idle {
		n, want := idle[k]+out[k], r.share(k == 1)
		if n > want || n < want && up[k] && exact {
			return fmt.Sprintf("%d %s connections (%d on loan), the pool has %d", n, roleName(k == 1), out[k], want)
		}
	}
	return ""
}

func (r *topoRun) settle(exact bool, when string) error {
	var last string
	if !r.cl.wait(10*time.Second, func() bool { last = r.unsettled(exact); return last == "" }) {
		return fmt.Errorf("%s there are still %s", when, last)
	}
	return nil
}

func (r *topoRun) ask(a asker) (*member, *fb.Conn, error) {
	r.serial++
	q := fmt.Sprintf("who %d", r.serial)
	rows, _, err := a.Query(q, nil)
	if err != nil {
		return nil, nil, err
	}
	return r.cl.identify(rows, q)
}

// borrow takes one; nil if there is none to be had and that is in order.
func (r *topoRun) borrow(read bool) (*loanR, error) {
	have := 0
	on := map[*fb.Conn]bool{}
	for _, l := range r.loans {
		on[l.sc] = true
		if l.read == read {
			have++
		}
	}
	count := func() (n int) {
		for i, m := range r.cl.members {
			if canonical(r.known[i]) == roleName(read) {
				for _, sc := range m.srv.Live() {
					if !on[sc] {
						n++
					}
				}
			}
		}
		return
	}
	idle := count()
	var l *loanR
	err := within("borrowing", func() error {
		conn, err := r.pool.Open(mode(read))
		if err != nil {
			// the servers see connections that ask for the overview, too, but not always
			if have >= r.share(read) || idle == 0 || r.cl.wait(2*time.Second, func() bool { return count() == 0 }) {
				return nil
			}
			return fmt.Errorf("borrowing a %s connection failed with %d on loan and %d idle: %v", roleName(read), have, idle, oneLine(err))
		}
		m, sc, err := r.ask(conn)
		if err != nil {
			return fmt.Errorf("a %s connection was lent that does not work: %v", roleName(read), oneLine(err))
		}
		if canonical(r.known[m.i]) != roleName(read) {
			return fmt.Errorf("a %s loan is a connection to member %d, whose role is %q", roleName(read), m.i, r.known[m.i])
		}
		if on[sc] {
			return fmt.Errorf("a connection on loan was lent again")
		}
		if have >= r.share(read) {
			return fmt.Errorf("a %s connection was lent although all %d are on loan", roleName(read), have)
		}
		l = &loanR{conn: conn, sc: sc, m: m, read: read}
		return nil
	})
	if l != nil {
		r.loans = append(r.loans, l)
	}
	return l, err
}

func (r *topoRun) giveBack(l *loanR, strict bool) error {
	var rerr error
	if err := within("returning a connection", func() error { rerr = r.pool.Reclaim(l.conn); return nil }); err != nil {
		return err
	}
	var rest []*loanR
	for _, x := range r.loans {
		if x != l {
			rest = append(rest, x)
		}
	}
	r.loans = rest
	if rerr != nil && strict {
		return fmt.Errorf("returning a connection failed: %v", oneLine(rerr))
	}
	if l.sc.InTx() {
		return fmt.Errorf("a connection was returned and its transaction is still open")
	}
	return nil
}

func (r *topoRun) phase(p topoPhase) error {
	cl := r.cl
	for _, read := range p.Hold {
		l, err := r.borrow(read)
		if err != nil {
			return err
		}
		if l == nil {
			continue
		}
		if p.Tx {
			tx, err := l.conn.Begin()
			if err != nil {
				return fmt.Errorf("cannot begin on a connection on loan: %v", oneLine(err))
			}
			l.tx = tx
		}
	}
	entry := cl.members[r.c.Entry]
	cl.mu.Lock()
	for i, m := range cl.members {
		m.role = p.Roles[i]
		m.down = ""
		if p.Down != nil {
			m.down = p.Down[i]
		}
	}
	cl.mode, cl.extras, cl.noise, cl.order = p.Mode, p.Extras, p.Noise, p.Noise
	asked := cl.asked
	cl.mu.Unlock()
	failing := p.Mode != "" || p.Down != nil && p.Down[r.c.Entry] != ""
	tried := entry.srv.Accepted()
	moved := false
	cut := false
	if !failing {
		for i := range p.Roles {
			moved = moved || canonical(p.Roles[i]) != canonical(r.known[i])
			if p.Cut && canonical(p.Roles[i]) == "" && canonical(r.known[i]) != "" {
				for _, sc := range cl.members[i].srv.Live() {
					sc.HangUp(p.Noise%2 == 0)
					cut = true
				}
			}
		}
		r.known = p.Roles
		if moved {
			r.ctx.Label("topology changed")
		}
		if !cl.wait(10*time.Second, func() bool { return cl.asks() >= asked+2 }) {
			return fmt.Errorf("the overview was not asked for again")
		}
	} else {
		r.ctx.Label("refresh fails")
		if !cl.wait(10*time.Second, func() bool { return entry.srv.Accepted() >= tried+2 }) {
			return fmt.Errorf("after a refresh failed there was no other")
		}
	}
	if moved || failing {
		r.ctx.NonTrivial()
	}
	if err := r.settle(true, fmt.Sprintf("after the roles became %q", r.known)); err != nil {
		return err
	}
	for len(r.loans) > 0 {
		l := r.loans[0]
		gone := !l.sc.Alive()
		if !gone {
			r.ctx.Label("loan held over a change")
			var a asker = l.conn
			if l.tx != nil {
				a = l.tx
			}
			_, sc, err := r.ask(a)
			if err != nil {
				return fmt.Errorf("a connection on loan stopped working when the roles became %q: %v", r.known, oneLine(err))
			}
			if sc != l.sc {
				return fmt.Errorf("a connection changed its socket")
			}
		} else if !cut {
			return fmt.Errorf("a connection on loan was closed")
		}
		stays := !gone && canonical(r.known[l.m.i]) == roleName(l.read)
		if err := r.giveBack(l, stays); err != nil {
			return err
		}
	}
	// what is given back to a failing cluster may be missing
	if err := r.settle(!failing, "after the loans were returned"); err != nil {
		return err
	}
	// all that can be had
	for _, read := range []bool{true, false} {
		for i := 0; i <= r.share(read); i++ {
			if _, err := r.borrow(read); err != nil {
				return fmt.Errorf("roles %q: %v", r.known, err)
			}
		}
	}
	if !failing {
		if err := r.settle(true, "with everything lent"); err != nil {
			return err
		}
	}
	for len(r.loans) > 0 {
		if err := r.giveBack(r.loans[0], true); err != nil {
			return err
		}
	}
	return cl.violations()
}

func runTopo(ctx *prop.Ctx, c topoCase) error {
	done := leakGuard()
	cfg := fb.Config{CheckAuth: c.User != "", User: c.User, Pass: c.Pass}
	query := ""
	if c.TLS {
		p, err := thePKI()
		if err != nil {
			return prop.Infra("certificates: %v", err)
		}
		cfg.TLS = &tls.Config{Certificates: []tls.Certificate{p.servers["good"]}}
		query = "?" + url.Values{"tls": {"true"}, "tls_ca_cert_file": {p.path("good.pem")}}.Encode()
	}
	cl, err := newCluster(ctx, c.Ver, c.Phases[0].Roles, cfg)
	if err != nil {
		return err
	}
	cl.noise, cl.order, cl.extras = c.Phases[0].Noise, c.Phases[0].Noise, c.Phases[0].Extras
	r := &topoRun{ctx: ctx, c: c, cl: cl, known: c.Phases[0].Roles}
	var serr error
	if err := within("starting", func() error {
		r.pool, serr = newRouted(cl.members[c.Entry].srv.Addr, c.Size, c.User, c.Pass, false, time.Duration(c.Every)*time.Microsecond, query)
		return nil
	}); err != nil {
		return err
	}
	ctx.Cleanup(func() {
		if r.pool != nil {
			go r.pool.Close()
		}
	})
	if serr != nil {
		if err := cl.violations(); err != nil {
			return fmt.Errorf("starting failed (%v): %v", oneLine(serr), err)
		}
		return fmt.Errorf("starting with roles %q failed: %v", r.known, oneLine(serr))
	}
	if err := r.settle(true, "after starting"); err != nil {
		return err
	}
	for i, p := range c.Phases[1:] {
		if err := r.phase(p); err != nil {
			return fmt.Errorf("phase %d: %v", i+1, err)
		}
	}
	// everybody was shown the same credentials
	init := ""
	for _, m := range cl.members {
		for _, e := range m.srv.Log() {
			if e.Kind != "init" {
				continue
			}
			var s string
			for _, k := range []string{"scheme", "principal", "credentials", "realm"} {
				v, ok := e.Meta.Get(k)
				s += fmt.Sprintf("%s: %v %s ", k, ok, ps.Show(v))
			}
			if init == "" {
				init = s
			} else if s != init {
				return fmt.Errorf("a member was shown %s, the first one %s", s, init)
			}
		}
	}
	if err := within("stopping the pool", r.pool.Close); err != nil && !strings.Contains(err.Error(), "does not return") {
		err = nil // closing a connection that just died may fail
	} else if err != nil {
		return err
	}
	if !cl.wait(5*time.Second, func() bool { return cl.open() == 0 }) {
		return fmt.Errorf("%d connections remain open after the pool was stopped", cl.open())
	}
	if err := noBackground(); err != nil {
		return err
	}
	n := cl.accepted()
	time.Sleep(2 * time.Duration(c.Every) * time.Microsecond)
	if got := cl.accepted(); got != n {
		return fmt.Errorf("a stopped pool made %d connections", got-n)
	}
	if err := cl.violations(); err != nil {
		return err
	}
	cl.close()
	return done()
}

func init() {
	prop.Add(prop.Part{Prop: "C22", Name: "topologies",
		Rule:  "sequences of up to 7 generated topologies of 2 to 5 members under a routing pool of size 2 to 8 that refreshes every 1 to 6 ms: any roles, single changes, swaps, members leaving (hanging up or not), unreachable members, overviews that fail in 6 ways, rows to be skipped; loans held over the changes; credentials or none, encryption or none; non-trivial: some role changed or some refresh failed",
		Quick: 5000, Thorough: 120000, Shards: 16},
		genTopo, runTopo)
}
