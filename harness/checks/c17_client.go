package checks

import (
	"fmt"
	"net"
	"net/url"
	"strconv"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
)

// slowClient is a statement answered late, or never, on a connection made in
// one of the ways there are, with a timeout or with none configured.
type slowClient struct {
	Ver   int    `json:"ver"`
	Via   string `json:"via"` // direct string driver pool routing
	Read  bool   `json:"read,omitempty"`
	Set   int    `json:"set"` // seconds configured, 0: none
	Stall bool   `json:"stall"`
	At    int    `json:"at"`
}

// documentedTimeout is what holds when none is set.
const documentedTimeout = 60 * time.Second

func genSlowClient(t *rapid.T) slowClient {
	s := slowClient{Ver: rapid.IntRange(1, 4).Draw(t, "ver"),
		Via:   rapid.SampledFrom([]string{"direct", "string", "driver", "pool", "routing", "routing"}).Draw(t, "via"),
		Read:  rapid.Bool().Draw(t, "read"),
		Set:   rapid.SampledFrom([]int{0, 0, 0, 3, 70}).Draw(t, "set"),
		Stall: rapid.Bool().Draw(t, "stall"),
		At:    rapid.IntRange(0, 12).Draw(t, "at")}
	if s.Via == "routing" && s.Ver < 3 {
		s.Ver += 2
	}
	return s
}

func runSlowClient(ctx *prop.Ctx, s slowClient) error {
	timeout := time.Duration(s.Set) * time.Second
	if s.Set == 0 {
		timeout = documentedTimeout
	}
	ctx.Label(fmt.Sprintf("%s-%d", s.Via, s.Set))
	roles := []string{"LEADER"}
	if s.Via == "routing" {
		roles = []string{"LEADER", "FOLLOWER"}
	}
	cl, err := newCluster(ctx, s.Ver, roles, fb.Config{})
	if err != nil {
		return err
	}
	wait := timeout - 10*time.Second
	if s.Set != 0 && s.Set < 20 {
		wait = timeout * 3 / 5
	}
	if s.Stall {
		cl.slow = &fb.Fault{Kind: "stall", At: s.At}
	} else {
		cl.slow = &fb.Fault{Kind: "pause", Waits: []fb.Wait{{At: s.At, Ms: int(wait / time.Millisecond)}}}
	}
	host, port, err := net.SplitHostPort(cl.members[0].srv.Addr)
	if err != nil {
		return prop.Infra("%v", err)
	}
	p, _ := strconv.Atoi(port)
	q := url.Values{}
	opts := []goBolt.Opt{goBolt.WithBasicAuth("neo4j", "pw")}
	if s.Set != 0 {
		q.Set("timeout", fmt.Sprint(s.Set))
	}
	if s.Via == "string" {
		opts = []goBolt.Opt{goBolt.WithConnectionString(connStr(cl.members[0].srv.Addr, "neo4j", "pw", q))}
	} else {
		opts = append(opts, goBolt.WithHostPort(host, p))
		if s.Set != 0 {
			opts = append(opts, goBolt.WithTimeout(timeout))
		}
	}
	var conn connection.IConnection
	mode := bolt_mode.WriteMode
	if s.Read {
		mode = bolt_mode.ReadMode
	}
	switch s.Via {
	case "direct":
		conn, err = connection.CreateBoltConn(connStr(cl.members[0].srv.Addr, "neo4j", "pw", q))
	case "string", "driver":
		var client goBolt.IClient
		var d goBolt.IDriver
		if client, err = goBolt.NewClient(opts...); err == nil {
			if d, err = client.NewDriver(); err == nil {
				conn, err = d.Open(mode)
			}
		}
	default:
		if s.Via == "routing" {
			opts = append(opts, goBolt.WithRouting())
		}
		var client goBolt.IClient
		var pool goBolt.IDriverPool
		if client, err = goBolt.NewClient(opts...); err == nil {
			if pool, err = client.NewDriverPool(2); err == nil {
				conn, err = pool.Open(mode)
				defer func() { go pool.Close() }() // it may have to wait for the connection
			}
		}
	}
	if err != nil {
		return fmt.Errorf("opening by way of %s: %s", s.Via, oneLine(err))
	}
	began := time.Now()
	done, bad := prop.Within(timeout+slack, func() error { _, _, err = conn.Query("slow", nil); return nil })
	took := time.Since(began)
	if bad != nil {
		return bad
	}
	set := "none set, so 60 s"
	if s.Set != 0 {
		set = fmt.Sprintf("%d s set", s.Set)
	}
	switch {
	case s.Stall && !done:
		return fmt.Errorf("a query (%s, timeout: %s) that is never answered is still blocked after %v\n%s", s.Via, set, took, goBoltStacks())
	case !done:
		return fmt.Errorf("a query (%s, timeout: %s) answered after %v is still blocked after %v\n%s", s.Via, set, wait, took, goBoltStacks())
	case s.Stall && err == nil:
		return fmt.Errorf("a query that was never answered reported success")
	case s.Stall && took < timeout*4/5:
		return fmt.Errorf("a query (%s, timeout: %s) failed after %v: %s", s.Via, set, took, oneLine(err))
	case s.Stall && conn.ValidateOpen():
		return fmt.Errorf("after a timeout the connection reports open")
	case !s.Stall && err != nil:
		return fmt.Errorf("a query (%s, timeout: %s) answered after %v failed after %v: %s", s.Via, set, wait, took, oneLine(err))
	}
	return nil
}

func init() {
	prop.Add(prop.Part{Prop: "C17", Name: "client",
		Rule:  "a statement on a connection opened directly, through a client given options or a connection string, from a pool or from a routing pool, the timeout set to 3 s or 70 s or not at all (60 s): it is never answered, or after a pause of up to 10 s less than the timeout; non-trivial: all",
		Quick: 48, Thorough: 480, Shards: 48, HangSec: 150},
		genSlowClient, func(ctx *prop.Ctx, s slowClient) error { ctx.NonTrivial(); return runSlowClient(ctx, s) })
}
