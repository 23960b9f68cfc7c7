package checks

import (
	"fmt"
	"net"
	"net/url"
	"strconv"
	"strings"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
)

// confCase is a client configuration.
type confCase struct {
	Via     string `json:"via"`  // options, string, both (the string, and settings as options)
	Host    string `json:"host"` // where the server listens and what the client is given
	Brack   bool   `json:"brack,omitempty"`
	User    string `json:"user"`
	Pass    string `json:"pass"`
	Esc     int    `json:"esc,omitempty"`     // how the connection string is written
	Timeout int    `json:"timeout,omitempty"` // milliseconds, 0: not given
	Chunk   int    `json:"chunk,omitempty"`
	Routing bool   `json:"routing,omitempty"`
	Strict  int    `json:"strict,omitempty"`
	Greater int    `json:"greater,omitempty"`
	Less    int    `json:"less,omitempty"`
	Ver     int    `json:"ver"`  // highest version the server speaks
	Kind    string `json:"kind"` // driver, pool
	Read    bool   `json:"read,omitempty"`
	Order   int    `json:"order,omitempty"`
	Broken  string `json:"broken,omitempty"`
	Size    int    `json:"size"` // of a parameter
	Stall   bool   `json:"stall,omitempty"`
	Extra   string `json:"extra,omitempty"` // options that repeat defaults
	Again   []int  `json:"again,omitempty"` // further uses of the client: connections opened by each, 0 for a driver
}

var hasV6 = func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err != nil {
		return false
	}
	l.Close()
	return true
}()

var brokenConfs = []string{"none", "nilopt", "nohost", "emptyhost", "port0", "port-1", "port70000", "nouser", "emptyuser",
	"string+host", "host+string", "string+routing", "routing+string", "string+routing+host", "string+user", "scheme", "scheme2", "noscheme", "nopass",
	"badtimeout", "badtimeout2", "negtimeout", "chunk0", "unparsable", "badport", "strict0", "strict5", "greater0", "greater4", "less1", "less5",
	"versions", "badhost", "routedriver", "routesize1", "routesize0", "badescape", "tlsword",
	"string+emptyuser", "timeouts", "tlstwice"}

func genConf(t *rapid.T) confCase {
	hosts := []string{"127.0.0.1", "127.0.0.1", "127.0.0.2", "localhost"}
	if hasV6 {
		hosts = append(hosts, "::1", "::1")
	}
	c := confCase{Via: rapid.SampledFrom([]string{"options", "options", "string", "both"}).Draw(t, "via"),
		Host: rapid.SampledFrom(hosts).Draw(t, "host"),
		User: genCred(t, "user"), Pass: genCred(t, "pass"),
		Chunk:   rapid.SampledFrom([]int{0, 0, 1, 2, 17, 1000, 65535}).Draw(t, "chunk"),
		Routing: rapid.IntRange(0, 3).Draw(t, "routing") == 0,
		Ver:     rapid.IntRange(1, 4).Draw(t, "ver"),
		Kind:    rapid.SampledFrom([]string{"driver", "pool"}).Draw(t, "kind"),
		Read:    rapid.Bool().Draw(t, "read"),
		Order:   rapid.IntRange(0, 1000).Draw(t, "order"),
		Size:    rapid.SampledFrom([]int{10, 500, 5000, 70000}).Draw(t, "size"),
		Esc:     rapid.IntRange(0, 2).Draw(t, "esc"),
		Extra:   rapid.SampledFrom([]string{"", "", "negotiate", "zero"}).Draw(t, "extra"),
		Brack:   rapid.IntRange(0, 3).Draw(t, "brack") == 0,
	}
	if rapid.IntRange(0, 2).Draw(t, "reused") == 0 {
		c.Again = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 3).Draw(t, "again")
	}
	if c.User == "" {
		c.User = "u"
	}
	if c.Chunk != 0 && c.Chunk < 3 && c.Size > 5000 {
		c.Size = 5000
	}
	if c.Routing {
		c.Kind = "pool"
		if c.Host == "localhost" || c.Host == "127.0.0.2" {
			c.Host = "127.0.0.1"
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "timeouts") == 0 {
		if c.Via == "string" {
			c.Timeout = 1000 * rapid.IntRange(1, 100).Draw(t, "secs")
		} else {
			c.Timeout = rapid.IntRange(1, 100000).Draw(t, "ms")
		}
		if rapid.IntRange(0, 3).Draw(t, "stall") == 0 {
			c.Stall = true
			c.Timeout = rapid.SampledFrom([]int{150, 300, 700, 1000}).Draw(t, "stallms")
			if c.Via == "string" {
				c.Timeout = 1000
			}
		} else if c.Timeout < 5000 {
			c.Timeout += 5000
		}
	}
	if c.Via != "string" && rapid.IntRange(0, 2).Draw(t, "versions") == 0 {
		switch rapid.IntRange(0, 3).Draw(t, "vk") {
		case 0:
			c.Strict = rapid.IntRange(1, 4).Draw(t, "strict")
		case 1:
			c.Greater = rapid.IntRange(1, 3).Draw(t, "greater")
		case 2:
			c.Less = rapid.IntRange(2, 4).Draw(t, "less")
		default:
			c.Greater = rapid.IntRange(1, 3).Draw(t, "greater")
			c.Less = rapid.IntRange(2, 4).Draw(t, "less")
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "isbroken") == 0 {
		c.Broken = rapid.SampledFrom(brokenConfs).Draw(t, "broken")
		c.Stall = false
	}
	return c
}

// versions the configuration allows, highest first
func (c confCase) versions() (out []int) {
	for v := 4; v >= 1; v-- {
		if (c.Strict == 0 || v == c.Strict) && (c.Greater == 0 || v > c.Greater) && (c.Less == 0 || v < c.Less) {
			out = append(out, v)
		}
	}
	return
}

// percent escapes every byte that is not a letter or digit (how 0), as the url
// package does (1), or in lower-case hexadecimal (2).
func percent(s string, how int) string {
	if how == 1 {
		u := url.UserPassword(s, "x").String()
		return u[:len(u)-2]
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if ch := s[i]; ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' {
			b.WriteByte(ch)
		} else if how == 0 {
			fmt.Fprintf(&b, "%%%02X", ch)
		} else {
			fmt.Fprintf(&b, "%%%02x", ch)
		}
	}
	return b.String()
}

func (c confCase) connString(scheme, port string, query string) string {
	if c.Routing {
		scheme += "+routing"
	}
	if c.Order%5 == 0 && c.Via == "string" {
		scheme = strings.ToUpper(scheme[:1]) + scheme[1:]
	}
	s := scheme + "://"
	if !(c.Via == "both" && c.Order%2 == 0) {
		s += percent(c.User, c.Esc) + ":" + percent(c.Pass, c.Esc) + "@"
	}
	return s + net.JoinHostPort(c.Host, port) + query
}

type namedOpt struct {
	name string
	opt  goBolt.Opt
}

// build lists the options; the bool says whether they are in order and valid.
func (c confCase) build(port int, routingTwo bool) []namedOpt {
	var os []namedOpt
	add := func(n string, o goBolt.Opt) { os = append(os, namedOpt{n, o}) }
	b := c.Broken
	host := c.Host
	if c.Brack && strings.Contains(host, ":") {
		host = "[" + host + "]"
	}
	ps := strconv.Itoa(port)
	settings := c.Via != "string"
	if c.Via == "options" {
		if b != "nohost" {
			switch b {
			case "emptyhost":
				add("host", goBolt.WithHostPort("", port))
			case "port0":
				add("host", goBolt.WithHostPort(host, 0))
			case "port-1":
				add("host", goBolt.WithHostPort(host, -1))
			case "port70000":
				add("host", goBolt.WithHostPort(host, 65536+port))
			case "badhost":
				add("host", goBolt.WithHostPort([]string{"127.0.0.1/x", "u@127.0.0.1", "127.0.0.1#", "127.0.0.1 x", "127.0.0.1:1", "127.0.0.1?x"}[c.Order%6], port))
			default:
				add("host", goBolt.WithHostPort(host, port))
			}
		}
		switch b {
		case "nouser":
		case "emptyuser":
			add("auth", goBolt.WithBasicAuth("", c.Pass))
		default:
			add("auth", goBolt.WithBasicAuth(c.User, c.Pass))
		}
		if c.Routing || b == "routedriver" || strings.HasPrefix(b, "routesize") {
			add("routing", goBolt.WithRouting())
		}
	} else {
		q := url.Values{}
		if c.Via == "string" && c.Timeout > 0 {
			q.Set("timeout", strconv.Itoa(c.Timeout/1000))
		}
		if c.Order%3 == 0 {
			q.Set("tls", []string{"false", "0", "F", ""}[c.Order%4])
		}
		switch b {
		case "badtimeout":
			q.Set("timeout", "soon")
		case "badtimeout2":
			q.Set("timeout", "5 seconds")
		case "negtimeout":
			q.Set("timeout", "-5")
		case "timeouts":
			if c.Via == "both" && c.Order%2 == 1 {
				q.Set("timeout", strconv.Itoa(1+c.Order%50))
			}
		case "tlstwice":
			if c.Via == "both" {
				q.Set("tls", []string{"false", "true"}[c.Order%2])
			}
		case "tlsword":
			q.Set("tls", []string{"yes", "on", "enabled", "2"}[c.Order%4])
		}
		query := q.Encode()
		if query != "" {
			query = "?" + query
		}
		if b == "badescape" {
			query = "?timeout=5%zz"
		}
		s := c.connString("bolt", ps, query)
		switch b {
		case "scheme":
			s = "http" + s[4:]
		case "scheme2":
			s = "bolts" + s[4:]
		case "noscheme":
			s = s[strings.Index(s, "://")+3:]
		case "nopass":
			s = "bolt://" + percent(c.User, c.Esc) + "@" + net.JoinHostPort(c.Host, ps)
		case "unparsable":
			s = []string{"bolt://[::1:" + ps, "bolt://u:p%zz@" + net.JoinHostPort(c.Host, ps), "bolt://u:p@ho st:" + ps, "\x7fbolt://", "bolt://u:p@"}[c.Order%5]
		case "badport":
			s = "bolt://u:p@" + c.Host + ":" + []string{"x", "70000", "-1"}[c.Order%3]
		case "routedriver", "routesize0", "routesize1":
			if !c.Routing {
				s = strings.Replace(s, "://", "+routing://", 1)
			}
		}
		add("string", goBolt.WithConnectionString(s))
		if c.Via == "both" {
			if b == "tlstwice" {
				add("tls", goBolt.WithTLS("", "", "", true))
			}
			if c.Order%2 == 0 && b == "string+emptyuser" {
				add("auth", goBolt.WithBasicAuth("", c.Pass))
			} else if c.Order%2 == 0 {
				add("auth", goBolt.WithBasicAuth(c.User, c.Pass))
			} else if b == "string+user" {
				add("auth", goBolt.WithBasicAuth(c.User+"x", c.Pass))
			}
		}
	}
	if settings {
		if b == "timeouts" && c.Timeout == 0 && c.brokenHere() {
			add("timeout", goBolt.WithTimeout(time.Duration(51+c.Order)*time.Second))
		}
		if c.Timeout > 0 && b != "negtimeout" {
			add("timeout", goBolt.WithTimeout(time.Duration(c.Timeout)*time.Millisecond))
		}
		if c.Chunk > 0 {
			add("chunk", goBolt.WithChunkSize(uint16(c.Chunk)))
		}
		if c.Strict > 0 {
			add("strict", goBolt.WithStrictProtocolVersion(c.Strict))
		}
		if c.Greater > 0 {
			add("greater", goBolt.WithProtocolVersionGreaterThan(c.Greater))
		}
		if c.Less > 0 {
			add("less", goBolt.WithProtocolVersionLessThan(c.Less))
		}
		switch c.Extra {
		case "negotiate":
			add("negotiate", goBolt.WithProtocolVersionNegotiation())
		case "zero":
			if c.Timeout == 0 {
				add("timeout", goBolt.WithTimeout(0))
			}
			if c.Chunk == 0 {
				add("chunk", goBolt.WithChunkSize(0))
			}
		}
	}
	switch b {
	case "negtimeout":
		if c.Via != "string" {
			add("bad", goBolt.WithTimeout(-time.Second))
		}
	case "strict0":
		add("bad", goBolt.WithStrictProtocolVersion(0))
	case "strict5":
		add("bad", goBolt.WithStrictProtocolVersion(5))
	case "greater0":
		add("bad", goBolt.WithProtocolVersionGreaterThan(0))
	case "greater4":
		add("bad", goBolt.WithProtocolVersionGreaterThan(4))
	case "less1":
		add("bad", goBolt.WithProtocolVersionLessThan(1))
	case "less5":
		add("bad", goBolt.WithProtocolVersionLessThan(5))
	case "nilopt":
		add("bad", nil)
	case "string+host", "host+string":
		if c.Via == "options" {
			d := c
			d.Via, d.Routing = "string", false
			add("bad", goBolt.WithConnectionString(d.connString("bolt", ps, "")))
		} else {
			add("bad", goBolt.WithHostPort(host, port))
		}
	case "string+routing", "routing+string":
		if c.Via != "options" {
			add("bad", goBolt.WithRouting())
		}
	}
	// any order
	k := c.Order
	for i := len(os) - 1; i > 0; i-- {
		j := k % (i + 1)
		k = k*31%9973 + 7
		os[i], os[j] = os[j], os[i]
	}
	return os
}

// brokenHere says whether the planted defect applies to the way the client is configured.
func (c confCase) brokenHere() bool {
	str := c.Via != "options"
	switch c.Broken {
	case "":
		return false
	case "nohost", "emptyhost", "port0", "port-1", "port70000", "nouser", "emptyuser", "badhost":
		return !str
	case "scheme", "scheme2", "noscheme", "nopass", "badtimeout", "badtimeout2", "unparsable", "badport", "badescape", "tlsword", "string+routing", "routing+string":
		return str
	case "string+user", "timeouts":
		return c.Via == "both" && c.Order%2 == 1
	case "string+emptyuser":
		return c.Via == "both" && c.Order%2 == 0 && c.Pass != ""
	case "tlstwice":
		return c.Via == "both"
	case "string+routing+host", "chunk0":
		return false
	case "versions":
		return false
	}
	return true
}

func runConf(ctx *prop.Ctx, c confCase) error {
	done := leakGuard()
	allowed := c.versions()
	broken := c.brokenHere() || len(allowed) == 0
	if c.Broken == "nopass" && c.Via == "both" && c.Order%2 == 0 {
		broken = true // a user in both places
	}
	if c.Broken == "badtimeout" || c.Broken == "badtimeout2" || c.Broken == "badescape" || c.Broken == "negtimeout" {
		if c.Via == "both" && c.Timeout > 0 {
			broken = true // twice, and wrong
		}
	}
	offer := []byte{0x60, 0x60, 0xb0, 0x17}
	choice := []byte{0, 0, 0, 0}
	for _, v := range allowed {
		offer = append(offer, 0, 0, 0, byte(v))
		if v <= c.Ver && choice[3] == 0 {
			choice[3] = byte(v)
		}
	}
	for len(offer) < 20 {
		offer = append(offer, 0)
	}
	ver := int(choice[3])
	size := 1 + c.Order%3
	roles := []string{"LEADER"}
	if c.Routing {
		roles = []string{"LEADER", "FOLLOWER", "READ_REPLICA"}
		size++
	}
	addr := net.JoinHostPort(c.Host, "0")
	if c.Host == "localhost" {
		addr = "127.0.0.1:0"
	}
	cl, err := newCluster(ctx, ver, roles, fb.Config{CheckAuth: true, User: c.User, Pass: c.Pass, Offer: offer, Choice: choice, Addr: addr})
	if err != nil {
		return err
	}
	entry := cl.members[c.Order%len(roles)]
	_, p, err := net.SplitHostPort(entry.srv.Addr)
	if err != nil {
		return prop.Infra("%v", err)
	}
	port, _ := strconv.Atoi(p)
	// a stalling statement
	for _, m := range cl.members {
		h := m.srv.Cfg.Handler
		m.srv.Cfg.Handler = func(q *fb.Request) *fb.Reply {
			if q.Kind == "run" && q.Query == "stall" {
				return &fb.Reply{Fault: &fb.Fault{Kind: "stall", At: 0}}
			}
			return h(q)
		}
	}

	var opts []goBolt.Opt
	if c.Broken != "none" {
		for _, o := range c.build(port, false) {
			opts = append(opts, o.opt)
		}
	}
	var conns []connection.IConnection
	var pool goBolt.IDriverPool
	var client goBolt.IClient
	stage := ""
	oerr := within("configuring and opening", func() error {
		stage = "NewClient"
		var err error
		client, err = goBolt.NewClient(opts...)
		if err != nil {
			return err
		}
		kind, size := c.Kind, size
		switch c.Broken {
		case "routedriver":
			kind = "driver"
		case "routesize0":
			kind, size = "pool", 0
		case "routesize1":
			kind, size = "pool", 1
		}
		if kind == "driver" {
			stage = "NewDriver"
			d, err := client.NewDriver()
			if err != nil {
				return err
			}
			stage = "Open"
			conn, err := d.Open(mode(c.Read))
			if err != nil {
				return err
			}
			conns = append(conns, conn)
			return nil
		}
		stage = "NewDriverPool"
		pool, err = client.NewDriverPool(size)
		if err != nil {
			pool = nil
			return err
		}
		for i := 0; i < size; i++ {
			stage = "Open"
			m := mode(c.Read)
			if c.Routing {
				m = mode(i%2 == 1)
			}
			conn, err := pool.Open(m)
			if err != nil {
				return err
			}
			conns = append(conns, conn)
		}
		return nil
	})
	defer func() {
		if pool != nil {
			go pool.Close()
		}
	}()
	finish := func() error {
		if err := within("closing", func() error {
			for _, conn := range conns {
				if pool != nil {
					if err := pool.Reclaim(conn); err != nil && !c.Stall {
						return fmt.Errorf("returning: %v", oneLine(err))
					}
				} else {
					_ = conn.Close()
				}
			}
			if pool != nil {
				return pool.Close()
			}
			return nil
		}); err != nil {
			return err
		}
		pool = nil
		for _, m := range cl.members {
			m.srv.ReleaseAll()
		}
		if !cl.wait(5*time.Second, func() bool { return cl.open() == 0 }) {
			return fmt.Errorf("%d connections remain open at the end", cl.open())
		}
		if err := cl.violations(); err != nil {
			return err
		}
		cl.close()
		return done()
	}
	if broken {
		ctx.NonTrivial()
		ctx.Label("refused " + c.Broken)
		if oerr == nil {
			return fmt.Errorf("the configuration (%s, via %s) was accepted and %d connections were opened", c.Broken, c.Via, len(conns))
		}
		if n := cl.accepted(); n > 0 {
			return fmt.Errorf("the configuration (%s, via %s) was refused by %s only after connecting %d times", c.Broken, c.Via, stage, n)
		}
		return finish()
	}
	if ver == 0 {
		ctx.Label("no common version")
		if oerr == nil {
			return fmt.Errorf("a connection was opened although versions %v were wanted and the server speaks up to %d", allowed, c.Ver)
		}
		return finish()
	}
	if oerr != nil {
		if err := cl.violations(); err != nil {
			return fmt.Errorf("%s failed (%v): %v", stage, oneLine(oerr), err)
		}
		return fmt.Errorf("%s failed with a valid configuration (via %s): %v", stage, c.Via, oneLine(oerr))
	}
	cl.mu.Lock()
	asked := cl.asked
	cl.mu.Unlock()
	if c.Routing && asked == 0 {
		return fmt.Errorf("routing was configured and nobody asked for the cluster overview")
	}
	if !c.Routing && asked > 0 {
		return fmt.Errorf("routing was not configured and the cluster overview was asked for")
	}
	if !c.Routing && entry.srv.Accepted() != len(conns) {
		return fmt.Errorf("%d connections were made for %d", entry.srv.Accepted(), len(conns))
	}
	ctx.Label("via " + c.Via)
	if c.Via != "options" || c.Chunk > 0 || c.Timeout > 0 || c.Strict+c.Greater+c.Less > 0 || c.Routing {
		ctx.NonTrivial()
	}
	check := func(i int, conn connection.IConnection, text string) error {
		if conn == nil {
			return fmt.Errorf("open gave neither a connection nor an error")
		}
		if got := conn.GetProtocolVersionNumber(); got != ver {
			return fmt.Errorf("the connection reports version %d, negotiated was %d", got, ver)
		}
		rows, _, err := conn.Query(text, map[string]interface{}{"p": strings.Repeat("x", c.Size)})
		if err != nil {
			return fmt.Errorf("a statement failed: %v", oneLine(err))
		}
		if len(rows) != 1 || len(rows[0]) != 3 || rows[0][0] != text {
			return fmt.Errorf("a statement was answered %v", rows)
		}
		who, _ := rows[0][2].(int64)
		m := cl.members[who]
		if c.Routing {
			want := "write"
			if i%2 == 1 {
				want = "read"
			}
			if canonical(m.role) != want {
				return fmt.Errorf("a %s loan is a connection to a %s", want, m.role)
			}
		}
		chunk := c.Chunk
		if c.Chunk == 0 || c.Via == "string" {
			chunk = 65535
		}
		for _, e := range m.srv.Log() {
			if e.Kind != "run" || e.Query != text {
				continue
			}
			for k, n := range e.Chunks {
				if k < len(e.Chunks)-1 && n != chunk || n > chunk {
					return fmt.Errorf("a statement was sent in chunks of %d bytes, configured are %d", n, chunk)
				}
			}
			if c.Chunk > 0 && len(e.Chunks) > 1 {
				ctx.Label("chunked")
			}
		}
		return nil
	}
	for i, conn := range conns {
		if err := check(i, conn, fmt.Sprintf("statement %d", i)); err != nil {
			return err
		}
	}
	for k, n := range c.Again {
		ctx.Label("client used again")
		if err := within("using the client again", func() error {
			kind := "pool"
			open := func(bolt_mode.AccessMode) (connection.IConnection, error) { return nil, nil }
			end := func(connection.IConnection) error { return nil }
			if n == 0 && !c.Routing {
				kind, n = "driver", 2
				d, err := client.NewDriver()
				if err != nil {
					return fmt.Errorf("another driver of the same client: %v", oneLine(err))
				}
				open = d.Open
				end = func(conn connection.IConnection) error { return conn.Close() }
			} else {
				if n == 0 || c.Routing {
					n = 2
				}
				p, err := client.NewDriverPool(n)
				if err != nil {
					return fmt.Errorf("another pool of the same client: %v", oneLine(err))
				}
				defer p.Close()
				open, end = p.Open, p.Reclaim
			}
			for i := 0; i < n; i++ {
				m := mode(c.Read)
				if c.Routing {
					m = mode(i%2 == 1)
				}
				conn, err := open(m)
				if err != nil {
					return fmt.Errorf("opening a connection with another %s of the same client: %v", kind, oneLine(err))
				}
				if err := check(i, conn, fmt.Sprintf("statement %d of use %d", i, k)); err != nil {
					return fmt.Errorf("another %s of the same client: %v", kind, err)
				}
				if err := end(conn); err != nil {
					return fmt.Errorf("giving up a connection of another %s of the same client: %v", kind, oneLine(err))
				}
			}
			return nil
		}); err != nil {
			return err
		}
	}
	if c.Stall && len(conns) > 0 {
		ctx.Label("stall")
		from := time.Now()
		limit := time.Duration(c.Timeout) * time.Millisecond
		fin, err := prop.Within(limit+8*time.Second, func() error {
			_, err := conns[0].Exec("stall", nil)
			if err == nil {
				return fmt.Errorf("a statement without an answer succeeded")
			}
			return nil
		})
		if !fin {
			return fmt.Errorf("a stalled statement has not ended %v after its timeout of %v", 8*time.Second, limit)
		}
		if err != nil {
			return err
		}
		if took := time.Since(from); took < limit*8/10 {
			return fmt.Errorf("a stalled statement ended after %v, the configured timeout is %v", took, limit)
		}
	}
	return finish()
}

func init() {
	_ = bolt_mode.ReadMode
	prop.Add(prop.Part{Prop: "C24", Name: "settings",
		Rule:  "a client configured by options, by connection string or by both, in any order: host (IPv4, IPv6, name), generated user and password, timeout, chunk size, routing, protocol version limits; the server checks credentials, offered versions and chunk sizes, some statements stall, and some clients make further drivers and pools; a quarter of the configurations carry one of 41 planted mistakes; non-trivial: something besides host and credentials is set, or a mistake was planted",
		Quick: 6000, Thorough: 150000, Shards: 16},
		genConf, runConf)
}
