package checks

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/connection"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
)

// pki is a set of certificates made anew by every process.
type pki struct {
	dir     string
	servers map[string]tls.Certificate
	clients *x509.CertPool
}

func (p *pki) path(name string) string { return filepath.Join(p.dir, name) }

type issuer struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	raw  []byte
}

var serial int64

// issue makes a certificate; by nil means self-signed.
func issue(by *issuer, tpl x509.Certificate) (*issuer, error) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return nil, err
	}
	serial++
	tpl.SerialNumber = big.NewInt(serial)
	if tpl.NotBefore.IsZero() {
		tpl.NotBefore = time.Now().Add(-48 * time.Hour)
	}
	if tpl.NotAfter.IsZero() {
		tpl.NotAfter = time.Now().Add(48 * time.Hour)
	}
	tpl.BasicConstraintsValid = true
	parent, signer := &tpl, key
	if by != nil {
		parent, signer = by.cert, by.key
	}
	raw, err := x509.CreateCertificate(rand.Reader, &tpl, parent, &key.PublicKey, signer)
	if err != nil {
		return nil, err
	}
	cert, err := x509.ParseCertificate(raw)
	return &issuer{cert, key, raw}, err
}

func (i *issuer) certPEM() []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: i.raw})
}

func (i *issuer) keyPEM() []byte {
	b, _ := x509.MarshalECPrivateKey(i.key)
	return pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b})
}

func ca(name string) x509.Certificate {
	return x509.Certificate{Subject: pkix.Name{CommonName: name}, IsCA: true, KeyUsage: x509.KeyUsageCertSign}
}

func leaf(name string, ips string, dns string) x509.Certificate {
	t := x509.Certificate{Subject: pkix.Name{CommonName: name}, KeyUsage: x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	for _, ip := range strings.Fields(ips) {
		t.IPAddresses = append(t.IPAddresses, net.ParseIP(ip))
	}
	t.DNSNames = strings.Fields(dns)
	return t
}

var (
	pkiOnce sync.Once
	pkiSet  *pki
	pkiErr  error
)

// thePKI makes the certificates. The authorities of the system are replaced by
// one of ours.
func thePKI() (*pki, error) {
	pkiOnce.Do(func() { pkiSet, pkiErr = makePKI() })
	return pkiSet, pkiErr
}

func makePKI() (*pki, error) {
	base, err := os.MkdirTemp("", "vharness-pki-")
	if err != nil {
		return nil, err
	}
	// names that have to be escaped in a connection string
	p := &pki{dir: filepath.Join(base, "c& r=t s%20+é#?;"), servers: map[string]tls.Certificate{}}
	if err := os.Mkdir(p.dir, 0o700); err != nil {
		return nil, err
	}
	var failed error
	must := func(i *issuer, err error) *issuer {
		if err != nil && failed == nil {
			failed = err
		}
		return i
	}
	write := func(name string, parts ...[]byte) {
		if err := os.WriteFile(p.path(name), bytes.Join(parts, nil), 0o600); err != nil && failed == nil {
			failed = err
		}
	}
	good, other, system := must(issue(nil, ca("good"))), must(issue(nil, ca("other"))), must(issue(nil, ca("system")))
	clientCA := must(issue(nil, ca("clients")))
	inter := must(issue(good, ca("intermediate")))
	impostor := must(issue(nil, ca("good"))) // same name, another key
	expiredCA := must(issue(nil, func() x509.Certificate {
		t := ca("expired authority")
		t.NotAfter = time.Now().Add(-time.Hour)
		return t
	}()))
	if failed != nil {
		return nil, failed
	}
	const allNames = "localhost"
	allIPs := "127.0.0.1 127.0.0.2 ::1 " + net.IP(fb.Loopback[:]).String()
	expired, future, client := leaf("server", allIPs, allNames), leaf("server", allIPs, allNames), leaf("server", allIPs, allNames)
	expired.NotAfter = time.Now().Add(-time.Hour)
	future.NotBefore = time.Now().Add(24 * time.Hour)
	client.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	notCA := must(issue(good, leaf("not an authority", allIPs, allNames)))
	for _, s := range []struct {
		name string
		by   *issuer
		tpl  x509.Certificate
		with []*issuer
	}{
		{"good", good, leaf("server", allIPs, allNames), nil},
		{"other", other, leaf("server", allIPs, allNames), nil},
		{"system", system, leaf("server", allIPs, allNames), nil},
		{"impostor", impostor, leaf("server", allIPs, allNames), []*issuer{impostor}},
		{"chain", inter, leaf("server", allIPs, allNames), []*issuer{inter}},
		{"nochain", inter, leaf("server", allIPs, allNames), nil},
		{"notca", notCA, leaf("server", allIPs, allNames), []*issuer{notCA}},
		{"dns", good, leaf("server", "", "localhost"), nil},
		{"ip", good, leaf("server", "127.0.0.1", ""), nil},
		{"ip6", good, leaf("server", "::1", "ip6-localhost"), nil},
		{"elsewhere", good, leaf("localhost", "10.1.2.3", "neo4j.example localhost.example xlocalhost"), nil},
		{"nosan", good, leaf("localhost", "", ""), nil},
		{"expired", good, expired, nil},
		{"future", good, future, nil},
		{"clientonly", good, client, nil},
		{"self", nil, leaf("server", allIPs, allNames), nil},
		{"expiredca", expiredCA, leaf("server", allIPs, allNames), nil},
	} {
		i := must(issue(s.by, s.tpl))
		if failed != nil {
			return nil, failed
		}
		c := tls.Certificate{Certificate: [][]byte{i.raw}, PrivateKey: i.key}
		for _, w := range s.with {
			c.Certificate = append(c.Certificate, w.raw)
		}
		p.servers[s.name] = c
		if s.name == "self" {
			write("self.pem", i.certPEM())
		}
	}
	clientLeaf := func(name string) x509.Certificate {
		t := leaf(name, "", "")
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
		return t
	}
	c1, c2 := must(issue(clientCA, clientLeaf("client one"))), must(issue(other, clientLeaf("client two")))
	if failed != nil {
		return nil, failed
	}
	write("good.pem", good.certPEM())
	write("other.pem", other.certPEM())
	write("bundle.pem", []byte("# two authorities\n"), other.certPEM(), good.certPEM())
	write("expiredca.pem", expiredCA.certPEM())
	write("empty.pem")
	write("garbage.pem", []byte("-----BEGIN CERTIFICATE-----\nnothing\n-----END CERTIFICATE-----\n"))
	write("torn.pem", good.certPEM()[:200])
	write("onlykey.pem", good.keyPEM())
	write("one.crt", c1.certPEM())
	write("one.key", c1.keyPEM())
	write("two.crt", c2.certPEM())
	write("two.key", c2.keyPEM())
	write("torn.key", c1.keyPEM()[:60])
	write("system.pem", system.certPEM())
	os.Setenv("SSL_CERT_FILE", p.path("system.pem"))
	os.Setenv("SSL_CERT_DIR", p.path("nowhere"))
	p.clients = x509.NewCertPool()
	p.clients.AddCert(clientCA.cert)
	return p, failed
}

// serverTLS is the configuration of a server with a good certificate, nil for one without.
func serverTLS(on bool) (*tls.Config, error) {
	if !on {
		return nil, nil
	}
	p, err := thePKI()
	if err != nil {
		return nil, prop.Infra("certificates: %v", err)
	}
	return &tls.Config{Certificates: []tls.Certificate{p.servers["good"]}}, nil
}

// tlsQuery is what a connection string must say to connect to such a server.
func tlsQuery(on bool) (url.Values, error) {
	if !on {
		return nil, nil
	}
	p, err := thePKI()
	if err != nil {
		return nil, prop.Infra("certificates: %v", err)
	}
	return url.Values{"tls": {"true"}, "tls_ca_cert_file": {p.path("good.pem")}}, nil
}

type tlsCase struct {
	Via     string   `json:"via"` // option, string, both
	Host    string   `json:"host"`
	Kind    string   `json:"kind"` // driver, pool, routing
	Servers []string `json:"servers"`
	CA      string   `json:"ca"` // file, "" none
	Cert    string   `json:"cert,omitempty"`
	Key     string   `json:"key,omitempty"`
	NoVer   bool     `json:"noverify,omitempty"`
	Word    int      `json:"word"` // how the switches are written
	Auth    string   `json:"auth,omitempty"`
	Ver     int      `json:"ver"`
	Size    int      `json:"size"`
	Max     int      `json:"max,omitempty"`
	Min     int      `json:"min,omitempty"` // the oldest version the servers accept; 0: 1.0
}

var badServers = []string{"other", "system", "impostor", "nochain", "notca", "dns", "ip", "ip6", "elsewhere", "nosan", "expired", "future", "clientonly", "self", "plain", "expiredca"}

func genTLS(t *rapid.T) tlsCase {
	hosts := []string{"127.0.0.1", "127.0.0.1", "localhost", "127.0.0.2"}
	if hasV6 {
		hosts = append(hosts, "::1")
	}
	c := tlsCase{Via: rapid.SampledFrom([]string{"option", "option", "string", "both"}).Draw(t, "via"),
		Host: rapid.SampledFrom(hosts).Draw(t, "host"),
		Kind: rapid.SampledFrom([]string{"driver", "pool", "routing"}).Draw(t, "kind"),
		Word: rapid.IntRange(0, 100).Draw(t, "word"),
		Ver:  rapid.IntRange(1, 4).Draw(t, "ver"),
		Size: rapid.IntRange(1, 3).Draw(t, "size"),
		CA:   "good.pem"}
	n := 1
	if c.Kind == "routing" {
		n, c.Size = 3, rapid.IntRange(4, 6).Draw(t, "rsize")
	}
	for i := 0; i < n; i++ {
		c.Servers = append(c.Servers, rapid.SampledFrom([]string{"good", "chain"}).Draw(t, "server"))
	}
	if rapid.IntRange(0, 1).Draw(t, "badserver") == 0 {
		c.Servers[rapid.IntRange(0, n-1).Draw(t, "which")] = rapid.SampledFrom(badServers).Draw(t, "bad")
	}
	switch rapid.IntRange(0, 7).Draw(t, "cakind") {
	case 0:
		c.CA = ""
	case 1:
		c.CA = rapid.SampledFrom([]string{"other.pem", "bundle.pem", "self.pem", "expiredca.pem", "system.pem"}).Draw(t, "ca")
	case 2:
		c.CA = rapid.SampledFrom([]string{"missing.pem", "empty.pem", "garbage.pem", "torn.pem", "onlykey.pem", "."}).Draw(t, "badca")
	}
	switch rapid.IntRange(0, 5).Draw(t, "certkind") {
	case 0, 1:
		c.Cert, c.Key = "one.crt", "one.key"
	case 2:
		c.Cert, c.Key = "two.crt", "two.key"
	case 3:
		if rapid.Bool().Draw(t, "badcert") {
			pair := rapid.SampledFrom([][2]string{{"one.crt", ""}, {"", "one.key"}, {"one.crt", "two.key"}, {"missing.crt", "one.key"}, {"one.crt", "missing.key"},
				{"one.crt", "torn.key"}, {"empty.pem", "one.key"}, {"one.crt", "empty.pem"}, {"one.key", "one.crt"}, {"garbage.pem", "one.key"}, {"one.crt", "one.crt"}, {".", "."}}).Draw(t, "pair")
			c.Cert, c.Key = pair[0], pair[1]
		}
	}
	c.Auth = rapid.SampledFrom([]string{"", "", "request", "require"}).Draw(t, "auth")
	c.NoVer = rapid.IntRange(0, 3).Draw(t, "noverify") == 0
	if rapid.IntRange(0, 3).Draw(t, "max") == 0 {
		c.Max = rapid.SampledFrom([]int{tls.VersionTLS12, tls.VersionTLS12, tls.VersionTLS11, tls.VersionTLS10}).Draw(t, "maxver")
	}
	if (c.Max == 0 || c.Max == tls.VersionTLS12) && rapid.Bool().Draw(t, "min") {
		c.Min = tls.VersionTLS12
	}
	return c
}

// settingsOK: the certificate settings can be read and are complete.
func (c tlsCase) settingsOK() bool {
	switch c.CA {
	case "missing.pem", "empty.pem", "garbage.pem", "torn.pem", "onlykey.pem", ".":
		return false
	}
	return c.Cert == "" && c.Key == "" || c.Cert == "one.crt" && c.Key == "one.key" || c.Cert == "two.crt" && c.Key == "two.key"
}

// trusts: the certificate chains to the configured authority, is valid now and names the host.
func (c tlsCase) trusts(server, host string) bool {
	if server == "plain" {
		return false
	}
	if c.NoVer {
		return true
	}
	by := "good.pem"
	switch server {
	case "other", "self", "system":
		by = server + ".pem"
	case "impostor", "nochain", "notca", "elsewhere", "nosan", "expired", "future", "clientonly", "expiredca":
		return false
	case "dns":
		if host != "localhost" {
			return false
		}
	case "ip":
		if host != "127.0.0.1" {
			return false
		}
	case "ip6":
		if host != "::1" {
			return false
		}
	}
	ca := c.CA
	if ca == "" {
		ca = "system.pem"
	}
	return ca == by || ca == "bundle.pem" && (by == "good.pem" || by == "other.pem")
}

func runTLS(ctx *prop.Ctx, c tlsCase) error {
	p, err := thePKI()
	if err != nil {
		return prop.Infra("certificates: %v", err)
	}
	done := leakGuard()
	roles := []string{"LEADER", "FOLLOWER", "READ_REPLICA"}[:len(c.Servers)]
	addr := net.JoinHostPort(c.Host, "0")
	member := c.Host // what the overview says
	if c.Host == "localhost" {
		addr, member = "127.0.0.1:0", "127.0.0.1"
	}
	const user, pass = "the user", "the password/é"
	cl, err := newCluster(ctx, c.Ver, roles, fb.Config{CheckAuth: true, User: user, Pass: pass, Addr: addr})
	if err != nil {
		return err
	}
	clientOK := c.Auth != "require" || c.Cert == "one.crt"
	for i, m := range cl.members {
		if c.Servers[i] == "plain" {
			continue
		}
		conf := &tls.Config{Certificates: []tls.Certificate{p.servers[c.Servers[i]]}, MinVersion: tls.VersionTLS10, MaxVersion: uint16(c.Max)}
		if c.Min != 0 {
			conf.MinVersion = uint16(c.Min)
		}
		switch c.Auth {
		case "request":
			conf.ClientAuth = tls.RequestClientCert
		case "require":
			conf.ClientAuth, conf.ClientCAs = tls.RequireAndVerifyClientCert, p.clients
		}
		m.srv.Cfg.TLS = conf
	}
	host, port, err := net.SplitHostPort(cl.members[0].srv.Addr)
	if err != nil {
		return prop.Infra("%v", err)
	}
	if c.Host == "localhost" {
		host = c.Host
	}
	nport, _ := strconv.Atoi(port)

	// must it work, must it fail?
	sound := c.settingsOK()
	var trusted []bool
	all := true
	for i, s := range c.Servers {
		may, must := c.trusts(s, member), c.trusts(s, member)
		if i == 0 {
			// known by the configured name, and by that of the overview when routing
			may, must = c.trusts(s, host), c.trusts(s, host)
			if c.Kind == "routing" {
				may, must = may || c.trusts(s, member), must && c.trusts(s, member)
			}
		}
		trusted = append(trusted, may && clientOK && sound)
		all = all && must && clientOK && sound
	}
	switch {
	case !sound:
		ctx.Label("settings refused")
	case all:
		ctx.Label("accepted")
	default:
		for i, s := range c.Servers {
			if !trusted[i] {
				ctx.Label("distrusted " + s)
			}
		}
	}
	if !all || c.Cert != "" || c.Kind == "routing" || c.NoVer {
		ctx.NonTrivial()
	}

	file := func(n string) string {
		if n == "" {
			return ""
		}
		return p.path(n)
	}
	withTLS := goBolt.WithTLS(file(c.CA), file(c.Cert), file(c.Key), c.NoVer)
	var opts []goBolt.Opt
	if c.Via == "option" {
		opts = []goBolt.Opt{goBolt.WithHostPort(host, nport), goBolt.WithBasicAuth(user, pass), withTLS, goBolt.WithTimeout(20 * time.Second)}
		if c.Kind == "routing" {
			opts = append(opts, goBolt.WithRouting())
		}
	} else {
		u := url.URL{Scheme: "bolt", User: url.UserPassword(user, pass), Host: net.JoinHostPort(host, port)}
		if c.Kind == "routing" {
			u.Scheme = "bolt+routing"
		}
		q := url.Values{}
		if c.Via == "string" {
			q.Set("tls", []string{"true", "t", "1", "T", "TRUE", "True"}[c.Word%6])
			if c.NoVer {
				q.Set("tls_no_verify", []string{"true", "1", "t", "TRUE"}[c.Word%4])
			} else if w := []string{"-", "false", "0", "", "F"}[c.Word%5]; w != "-" {
				q.Set("tls_no_verify", w)
			}
			for k, v := range map[string]string{"tls_ca_cert_file": c.CA, "tls_cert_file": c.Cert, "tls_key_file": c.Key} {
				if v != "" || c.Word%2 == 0 {
					q.Set(k, file(v))
				}
			}
			q.Set("timeout", "20")
		} else {
			opts = append(opts, withTLS, goBolt.WithTimeout(20*time.Second))
		}
		u.RawQuery = q.Encode()
		opts = append(opts, goBolt.WithConnectionString(u.String()))
	}

	var conns []connection.IConnection
	var pool goBolt.IDriverPool
	oerr := within("opening", func() error {
		client, err := goBolt.NewClient(opts...)
		if err != nil {
			return err
		}
		if c.Kind == "driver" {
			d, err := client.NewDriver()
			if err != nil {
				return err
			}
			for i := 0; i < c.Size; i++ {
				conn, err := d.Open(mode(i%2 == 0))
				if err != nil {
					return err
				}
				conns = append(conns, conn)
			}
			return nil
		}
		if pool, err = client.NewDriverPool(c.Size); err != nil {
			pool = nil
			return err
		}
		for i := 0; i < c.Size; i++ {
			conn, err := pool.Open(mode(i%2 == 1))
			if err != nil {
				return err
			}
			conns = append(conns, conn)
		}
		return nil
	})
	// whatever happened, the bytes tell
	judge := func() error {
		for i, m := range cl.members {
			if v := m.srv.Violations(); len(v) > 0 && c.Servers[i] != "plain" {
				return fmt.Errorf("protocol violated: %s", v[0])
			}
			for _, k := range m.srv.Conns() {
				b := k.Sniffed()
				for _, secret := range [][]byte{{0x60, 0x60, 0xb0, 0x17}, []byte("the user"), []byte("the password"), []byte("principal")} {
					if bytes.Contains(b, secret) {
						return fmt.Errorf("the server (%s) received % x unencrypted", c.Servers[i], secret)
					}
				}
				if len(b) > 0 && b[0] != 0x16 {
					return fmt.Errorf("the server (%s) received % x..., which does not start a TLS handshake", c.Servers[i], b[:min(8, len(b))])
				}
			}
			for _, e := range m.srv.Log() {
				if !trusted[i] && c.Servers[i] != "plain" && (e.Kind == "handshake" || e.Kind == "init" || e.Kind == "run") {
					why := "is not to be trusted"
					if !sound {
						why = "was used with unsound settings"
					} else if !clientOK {
						why = "wanted a client certificate"
					}
					return fmt.Errorf("a server (certificate %s, authority %q) that %s received a %s", c.Servers[i], c.CA, why, e.Kind)
				}
				if e.Kind == "tls" && trusted[i] && c.Auth != "" {
					want := map[string]string{"one.crt": "client one", "two.crt": "client two"}[c.Cert]
					if e.Query != want {
						return fmt.Errorf("client certificate %q was presented, configured is %q", e.Query, want)
					}
				}
			}
		}
		return nil
	}
	finish := func() error {
		if err := within("closing", func() error {
			for _, conn := range conns {
				if pool != nil {
					if err := pool.Reclaim(conn); err != nil {
						return fmt.Errorf("returning: %v", oneLine(err))
					}
				} else {
					_ = conn.Close()
				}
			}
			if pool != nil {
				return pool.Close()
			}
			return nil
		}); err != nil {
			return err
		}
		if !cl.wait(5*time.Second, func() bool { return cl.open() == 0 }) {
			return fmt.Errorf("%d connections remain open at the end", cl.open())
		}
		if err := judge(); err != nil {
			return err
		}
		cl.close()
		return done()
	}
	if err := judge(); err != nil {
		if pool != nil {
			go pool.Close()
		}
		return err
	}
	if !sound && oerr == nil {
		return fmt.Errorf("unsound settings (authority %q, certificate %q, key %q) were accepted", c.CA, c.Cert, c.Key)
	}
	if all && oerr != nil {
		return fmt.Errorf("opening failed (certificate %v, authority %q, client %q, %s): %v", c.Servers, c.CA, c.Cert, c.Auth, oneLine(oerr))
	}
	if !trusted[0] && oerr == nil {
		return fmt.Errorf("a server (certificate %s) that is not to be trusted (authority %q) was connected to", c.Servers[0], c.CA)
	}
	if oerr == nil {
		for i, conn := range conns {
			text := fmt.Sprintf("statement %d", i)
			rows, _, err := conn.Query(text, nil)
			if err != nil {
				return fmt.Errorf("a statement failed: %v", oneLine(err))
			}
			if len(rows) != 1 || len(rows[0]) != 3 || rows[0][0] != text {
				return fmt.Errorf("a statement was answered %v", rows)
			}
		}
	}
	return finish()
}

func init() {
	prop.Add(prop.Part{Prop: "C25", Name: "verify",
		Rule:  "encryption requested by option, connection string or both, for single, pooled and routing connections to servers with 17 kinds of certificate (or no encryption at all), 12 kinds of authority file, 15 kinds of client certificate settings, servers that ask for or require one; certificates are made by every process; the authorities of the system are replaced by one of ours; non-trivial: something is to be refused, or a client certificate, routing or no verification is configured",
		Quick: 20000, Thorough: 400000, Shards: 16},
		genTLS, runTLS)
}
