package checks

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// cluster is a set of scripted servers that answer the overview.
type cluster struct {
	mu      sync.Mutex
	ver     int
	members []*member
	mode    string // how the overview is answered: "", failure, malformed, close, rst, refuse
	extras  []string
	order   int
	asked   int // overviews answered completely
	started int
	wrong   string
	noise   int
	rb      map[[2]int]string // member, connection: what happens to a rollback
	late    time.Duration
	initOK  func() string // judges the number of connections
	slow    *fb.Fault     // what happens to the answer to the statement "slow"
}

type member struct {
	i    int
	srv  *fb.Server
	role string // as the overview says it; "" left the cluster
	down string // refuse, close, rst: what happens to new connections
	cl   *cluster
}

const overview = "call dbms.cluster.overview()"

// newCluster starts a cluster. cfg is copied for every member.
func newCluster(ctx *prop.Ctx, ver int, roles []string, cfg fb.Config) (*cluster, error) {
	cl := &cluster{ver: ver, rb: map[[2]int]string{}}
	cfg.Version = ver
	for i, role := range roles {
		m := &member{i: i, role: role, cl: cl}
		cl.members = append(cl.members, m)
		c := cfg
		c.Handler = m.handle
		srv, err := start(ctx, c)
		if err != nil {
			return nil, err
		}
		cl.mu.Lock()
		m.srv = srv
		cl.mu.Unlock()
	}
	return cl, nil
}

func (cl *cluster) close() {
	for _, m := range cl.members {
		m.srv.Close()
	}
}

func (cl *cluster) open() (n int) {
	for _, m := range cl.members {
		n += m.srv.Open()
	}
	return
}

func (cl *cluster) accepted() (n int) {
	for _, m := range cl.members {
		n += m.srv.Accepted()
	}
	return
}

func (cl *cluster) wait(d time.Duration, f func() bool) bool {
	return cl.members[0].srv.Wait(d, f)
}

func (cl *cluster) violations() error {
	cl.mu.Lock()
	w := cl.wrong
	cl.mu.Unlock()
	if w != "" {
		return fmt.Errorf("%s", w)
	}
	for _, m := range cl.members {
		if v := m.srv.Violations(); len(v) > 0 {
			return fmt.Errorf("protocol violated: %s", v[0])
		}
	}
	return nil
}

func (cl *cluster) asks() int { cl.mu.Lock(); defer cl.mu.Unlock(); return cl.asked }

// addresses of a member, as the overview lists them
func (m *member) addresses(how int) ps.V {
	bolt := "bolt://" + m.srv.Addr
	http := "http://" + m.srv.Addr[:strings.LastIndex(m.srv.Addr, ":")] + ":7474"
	https := "https://boltserver:7473"
	switch how % 4 {
	case 0:
		return ps.ListV(ps.StrV(bolt), ps.StrV(http), ps.StrV(https))
	case 1:
		return ps.ListV(ps.StrV(http), ps.StrV(bolt))
	case 2:
		return ps.ListV(ps.StrV(https), ps.StrV(http), ps.StrV(bolt))
	default:
		return ps.ListV(ps.StrV(bolt))
	}
}

func (cl *cluster) row(id string, addresses ps.V, role string, how int) ps.V {
	groups := ps.ListV()
	if how%2 == 1 {
		groups = ps.ListV(ps.StrV("g1"), ps.StrV("g2"))
	}
	if cl.ver == 4 {
		dbs := ps.MapV("neo4j", ps.StrV("FOLLOWER"), "system", ps.StrV(role))
		switch how % 3 {
		case 1:
			dbs = ps.MapV("system", ps.StrV(role), "other", ps.StrV("LEADER"))
		case 2:
			dbs = ps.MapV("system", ps.StrV(role))
		}
		return ps.ListV(ps.StrV(id), addresses, dbs, groups)
	}
	return ps.ListV(ps.StrV(id), addresses, ps.StrV(role), groups, ps.StrV("default"))
}

// rows of the overview; the caller has the lock
func (cl *cluster) rows() []ps.V {
	var out []ps.V
	for i, m := range cl.members {
		if m.role != "" {
			out = append(out, cl.row(fmt.Sprintf("member-%d", i), m.addresses(cl.noise+i), m.role, cl.noise+i))
		}
	}
	for i, e := range cl.extras {
		addr := "bolt://" + cl.members[0].srv.Addr
		if len(cl.members) > 1 {
			addr = "bolt://" + cl.members[len(cl.members)-1].srv.Addr
		}
		row := ps.V{}
		switch e {
		case "nobolt":
			row = cl.row("nobolt", ps.ListV(ps.StrV("http://127.0.0.1:1"), ps.StrV("https://127.0.0.1:2")), "FOLLOWER", i)
		case "noboltleader":
			row = cl.row("nobolt", ps.ListV(ps.StrV("http://bolt.example:1")), "LEADER", i)
		case "noaddress":
			row = cl.row("noaddress", ps.ListV(), "LEADER", i)
		case "role":
			row = cl.row("other", ps.ListV(ps.StrV(addr)), "CANDIDATE", i)
		case "emptyrole":
			row = cl.row("other", ps.ListV(ps.StrV(addr)), "", i)
		}
		out = append(out, row)
	}
	if n := len(out); n > 0 {
		k := cl.order % n
		out = append(append([]ps.V{}, out[k:]...), out[:k]...)
	}
	if cl.mode == "malformed" {
		bad := cl.malformed()
		k := cl.order % (len(out) + 1)
		out = append(append(append([]ps.V{}, out[:k]...), bad), out[k:]...)
	}
	return out
}

// malformed is a row nothing can be made of, most of it being in order.
func (cl *cluster) malformed() ps.V {
	who := cl.members[cl.noise%len(cl.members)]
	role := []string{"LEADER", "FOLLOWER", "READ_REPLICA"}[cl.noise%3]
	row := cl.row("bad", who.addresses(cl.noise), role, cl.noise)
	mixed := append(append([]ps.V{}, who.addresses(cl.noise).L...), ps.IntV(5))
	switch cl.noise % 17 {
	case 0:
		return ps.ListV()
	case 1:
		return ps.ListV(ps.IntV(1))
	case 2:
		row.L = append(row.L[:len(row.L):len(row.L)], ps.StrV("more"))
	case 3:
		row.L = row.L[:len(row.L)-1]
	case 4:
		row.L[0] = ps.IntV(1)
	case 5:
		row.L[0] = ps.NilV()
	case 6:
		row.L[1] = ps.NilV()
	case 7:
		row.L[1] = ps.StrV("bolt://" + who.srv.Addr)
	case 8:
		row.L[1] = ps.MapV("bolt", ps.StrV("bolt://"+who.srv.Addr))
	case 9:
		row.L[1] = ps.ListV(mixed...)
	case 10:
		mixed[0], mixed[len(mixed)-1] = mixed[len(mixed)-1], mixed[0]
		row.L[1] = ps.ListV(mixed...)
	case 11:
		row.L[2] = ps.NilV()
	case 12:
		row.L[2] = ps.IntV(7)
	case 13:
		row.L[2] = ps.ListV(ps.StrV(role))
	case 14:
		if cl.ver == 4 {
			row.L[2] = ps.StrV(role)
		} else {
			row.L[2] = ps.MapV("system", ps.StrV(role))
		}
	case 15:
		if cl.ver == 4 {
			row.L[2] = ps.MapV("system", ps.IntV(1))
		} else {
			row.L[2] = ps.BoolV(true)
		}
	case 16:
		if cl.ver == 4 {
			row.L[2] = ps.MapV("system", ps.ListV(ps.StrV(role)))
		} else {
			row.L[2] = ps.ListV()
		}
	}
	return row
}

func (m *member) handle(q *fb.Request) *fb.Reply {
	cl := m.cl
	rep := &fb.Reply{}
	cl.mu.Lock()
	mode, down, late := cl.mode, m.down, cl.late
	fault := cl.rb[[2]int{m.i, q.Conn.ID}]
	initOK := cl.initOK
	var rows []ps.V
	if q.Kind == "pull" && strings.EqualFold(q.Query, overview) {
		rows = cl.rows()
		if mode == "" && down != "" {
			mode = "failure"
		}
	}
	cl.mu.Unlock()
	rep.Delay = late
	switch {
	case q.Kind == "init":
		if initOK != nil {
			if w := initOK(); w != "" {
				cl.mu.Lock()
				cl.wrong = w
				cl.mu.Unlock()
			}
		}
		if down == "" && mode == "refuse" {
			down = "refuse"
		}
		switch down {
		case "refuse":
			rep.Msgs = []ps.V{fb.Failure("Neo.TransientError.General.DatabaseUnavailable", "not now")}
		case "close", "rst":
			rep.Fault = &fb.Fault{Kind: down, At: 0}
		}
	case q.Kind == "run" && strings.EqualFold(q.Query, overview):
		cl.mu.Lock()
		cl.started++
		cl.mu.Unlock()
		if db, ok := q.Meta.Get("db"); cl.ver == 4 && (!ok || string(db.S) != "system") {
			rep.Msgs = []ps.V{fb.Failure("Neo.ClientError.Procedure.ProcedureNotFound", "no such procedure here")}
			return rep
		}
		switch mode {
		case "failure":
			rep.Msgs = []ps.V{fb.Failure("Neo.Test", "no overview")}
		case "close", "rst":
			rep.Fault = &fb.Fault{Kind: mode, At: 0}
		}
	case q.Kind == "pull" && strings.EqualFold(q.Query, overview):
		for _, r := range rows {
			rep.Msgs = append(rep.Msgs, fb.Record(r))
		}
		rep.Msgs = append(rep.Msgs, fb.Success(fb.Empty()))
		switch mode {
		case "failure", "refuse":
			// it was not yet so when the statement was run
			rep.Msgs = []ps.V{fb.Failure("Neo.Test", "no overview")}
		case "close", "rst":
			rep.Fault = &fb.Fault{Kind: mode, At: 0}
		case "close2":
			rep.Fault = &fb.Fault{Kind: "close", At: len(m.srv.Frame(rep.Msgs)) / 2}
		case "failure2":
			rep.Msgs = append(append([]ps.V{}, rep.Msgs[:len(rep.Msgs)/2]...), fb.Failure("Neo.Test", "no overview"))
		default:
			cl.mu.Lock()
			cl.asked++
			cl.mu.Unlock()
		}
	case q.Kind == "rollback" && fault != "":
		if fault == "failure" {
			rep.Msgs = []ps.V{fb.Failure("Neo.Test", "no rollback")}
		} else {
			rep.Fault = &fb.Fault{Kind: fault, At: 0}
		}
	case q.Kind == "run" && q.Query == "bad":
		rep.Msgs = []ps.V{fb.Failure("Neo.Test", "bad")}
	case q.Kind == "run" && q.Query == "die":
		rep.Fault = &fb.Fault{Kind: "close", At: 0}
	case q.Kind == "pull" && q.Query == "slow":
		rep.Msgs = []ps.V{fb.Record(ps.ListV(ps.StrV(q.Query))), fb.Success(fb.Empty())}
		rep.Fault = cl.slow
	case q.Kind == "pull" && q.Query != "":
		rep.Msgs = []ps.V{fb.Record(ps.ListV(ps.StrV(q.Query), ps.IntV(int64(q.Conn.ID)), ps.IntV(int64(m.i)))), fb.Success(fb.Empty())}
	}
	return rep
}

// canonical role of a role as the overview writes it
func canonical(role string) string {
	switch strings.ToLower(role) {
	case "leader":
		return "write"
	case "follower", "read_replica":
		return "read"
	}
	return ""
}
