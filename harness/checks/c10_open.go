package checks

import (
	"fmt"
	"strings"
	"time"

	"github.com/mindstand/go-bolt/connection"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// opening is a script for opening connections.
type opening struct {
	Ver    int    `json:"ver"`    // version the server speaks
	Choice []byte `json:"choice"` // its answer to the handshake
	Frags  []int  `json:"frags,omitempty"`
	Chunks []int  `json:"chunks,omitempty"`
	Pause  int    `json:"pause,omitempty"` // milliseconds between fragments
	Greet  *fault `json:"greet,omitempty"`
	User   string `json:"user"`
	Pass   string `json:"pass"`
	Init   string `json:"init"` // success, failure, close-failure, bad
	Code   string `json:"code,omitempty"`
	Msg    string `json:"msg,omitempty"`
	Meta   ps.V   `json:"meta"`
	Fault  *fault `json:"fault,omitempty"` // on the reply to the initial request
	Query  string `json:"query"`
	Rows   []ps.V `json:"rows,omitempty"`
	Times  int    `json:"times"` // openings in a row
	Dead   bool   `json:"dead,omitempty"`
	Cause  bool   `json:"cause,omitempty"` // judge what the errors say as well
	TLS    bool   `json:"tls,omitempty"`
}

// genCred draws a user name or password.
func genCred(t *rapid.T, l string) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"neo4j", "", "p@ss:w/rd?#[]", "100%", "%41", "a b+c", "ünï", "日本", "&=;,$", "\"'<>\\^`{|}", "x@y:z"}),
		rapid.StringOfN(rapid.RuneFrom([]rune("abz09 @:/?#%&+=;,$!*'()[]{}<>|\\^`~\"é日.-_")), 0, 12, -1),
		rapid.StringOfN(rapid.RuneFrom([]rune("a")), 100, 300, -1),
	).Draw(t, l)
}

func genOpening(t *rapid.T) opening {
	o := opening{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Times: rapid.IntRange(1, 3).Draw(t, "times"),
		User: genCred(t, "user"), Pass: genCred(t, "pass"), Init: "success",
		Frags: genPattern(t, "frags"), Chunks: genPattern(t, "chunks"),
		Query: rapid.SampledFrom(plainQueries).Draw(t, "q"), Rows: genRows(t, flavour{}, 1)}
	if o.User == "" {
		o.User = "u"
	}
	if !okQuery(o.Query) {
		o.Query += " "
	}
	if o.Frags != nil && rapid.IntRange(0, 19).Draw(t, "pausek") == 0 {
		o.Pause = 1
	}
	o.Choice = []byte{0, 0, 0, byte(o.Ver)}
	o.Meta = ps.MapV("server", ps.StrV("Neo4j/4.0.0"), "connection_id", ps.StrV("bolt-1"))
	if rapid.IntRange(0, 4).Draw(t, "metak") == 0 {
		o.Meta = ps.GenMap(t, ps.GenOpts{Depth: 2})
	}
	o.TLS = rapid.IntRange(0, 5).Draw(t, "tls") == 0
	switch rapid.IntRange(0, 9).Draw(t, "what") {
	case 0, 1: // works
	case 2: // no or unknown version
		switch rapid.IntRange(0, 4).Draw(t, "choicek") {
		case 0:
			o.Choice = []byte{0, 0, 0, 0}
		case 1:
			o.Choice = []byte{0, 0, 0, byte(rapid.IntRange(5, 255).Draw(t, "v"))}
		case 2:
			o.Choice = []byte{byte(o.Ver), 0, 0, 0}
		case 3:
			o.Choice = append([]byte{0, 0, byte(rapid.IntRange(1, 255).Draw(t, "minor"))}, byte(o.Ver))
		default:
			o.Choice = rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "raw")
		}
	case 3: // disconnect in the handshake
		o.Greet = &fault{Kind: rapid.SampledFrom([]string{"close", "rst"}).Draw(t, "gk"), At: rapid.IntRange(0, 4).Draw(t, "gat")}
	case 4, 5: // refused
		o.Init = rapid.SampledFrom([]string{"failure", "close-failure"}).Draw(t, "refusal")
		o.Code, o.Msg = genCode(t)
	case 6, 7: // bad reply
		o.Init = "bad"
		o.Fault = &fault{On: "init", Kind: "bad"}
		o.Fault.Reply, o.Fault.Note = badReply(t, "init")
	case 8: // cut
		o.Fault = genFault(t, flavour{}, []string{"init"})
		if o.Fault.Kind == "bad" {
			o.Init = "bad"
		}
	case 9:
		o.Dead = rapid.Bool().Draw(t, "dead") // nothing listens
	}
	return o
}

func (o opening) good() bool {
	return !o.Dead && o.Choice[0] == 0 && o.Choice[1] == 0 && o.Choice[2] == 0 && o.Choice[3] >= 1 && o.Choice[3] <= 4 && o.Greet == nil && o.Init == "success" && o.Fault == nil
}

func runOpening(ctx *prop.Ctx, o opening, judgeCause bool) error {
	if o.Choice[0] == 0 && o.Choice[1] == 0 && o.Choice[2] == 0 && o.Choice[3] >= 1 && o.Choice[3] <= 4 {
		o.Ver = int(o.Choice[3])
	}
	tc, err := serverTLS(o.TLS)
	if err != nil {
		return err
	}
	q, err := tlsQuery(o.TLS)
	if err != nil {
		return err
	}
	if o.TLS {
		ctx.Label("encrypted")
	}
	leak := leakGuard()
	cut := true
	cfg := fb.Config{TLS: tc, Version: o.Ver, Choice: o.Choice, Frags: o.Frags, Chunks: o.Chunks, FragPause: time.Duration(o.Pause) * time.Millisecond}
	if o.Greet != nil {
		cfg.Greet = &fb.Fault{Kind: o.Greet.Kind, At: o.Greet.At}
	}
	cfg.Handler = func(r *fb.Request) *fb.Reply {
		rep := &fb.Reply{}
		switch r.Kind {
		case "init":
			rep.Msgs = []ps.V{fb.Success(o.Meta)}
			switch o.Init {
			case "failure":
				rep.Msgs = []ps.V{fb.Failure(o.Code, o.Msg)}
			case "close-failure":
				rep.Msgs = []ps.V{fb.Failure(o.Code, o.Msg)}
				rep.Fault = &fb.Fault{Kind: "close", At: -1}
			case "bad":
				rep.Raw = o.Fault.Reply
			default:
				if f := o.Fault; f != nil {
					n := len(r.Conn.Server().Frame(rep.Msgs))
					at := f.At
					if f.Rel {
						at = n * f.At / 1000
					}
					cut = at < n
					rep.Fault = &fb.Fault{Kind: f.Kind, At: at}
				}
			}
		case "pull":
			for _, row := range o.Rows {
				rep.Msgs = append(rep.Msgs, fb.Record(row))
			}
			rep.Msgs = append(rep.Msgs, fb.Success(fb.Empty()))
		}
		return rep
	}
	srv, err := start(ctx, cfg)
	if err != nil {
		return err
	}
	addr := srv.Addr
	if o.Dead {
		dead, err := deadAddr(ctx)
		if err != nil {
			return err
		}
		addr = dead
		leak = leakGuard()
	}
	for i := 0; i < o.Times; i++ {
		mark := srv.Mark()
		accepted := srv.Accepted()
		conn, err := connection.CreateBoltConn(connStr(addr, o.User, o.Pass, q))
		log := func() []fb.Event { return srv.Log()[mark:] }
		if err != nil && conn != nil {
			return fmt.Errorf("opening %d gave a connection and an error", i)
		}
		if !o.good() {
			if err == nil && !cut && o.Fault != nil {
				// the whole answer came before the server went away
				ctx.Label("opened-then-lost")
				if _, _, err := conn.Query(o.Query, nil); err == nil && o.Fault.Kind == "close" {
					return fmt.Errorf("the server had closed the connection, but a query succeeded")
				}
				_ = conn.Close()
				if !srv.WaitAllEnded(patience) {
					return fmt.Errorf("opening %d: the socket is still open after Close", i)
				}
				continue
			}
			if err == nil {
				return fmt.Errorf("opening %d must fail (choice % x, handshake fault %v, initial reply %s, fault %v), but it gave a connection", i, o.Choice, o.Greet, o.Init, faultNote2(o.Fault))
			}
			ctx.Label("refused")
			if judgeCause && (o.Init == "failure" || o.Init == "close-failure") && o.Fault == nil && o.Greet == nil && !o.Dead && int(o.Choice[3]) == o.Ver {
				if e := isFailure(err, o.Code, o.Msg); e != nil {
					return fmt.Errorf("opening %d: %v", i, e)
				}
			}
			if o.Cause {
				if e := toldOpening(o, err); e != nil {
					return fmt.Errorf("opening %d: %v", i, e)
				}
			}
			if !srv.WaitAllEnded(5 * time.Second) {
				return fmt.Errorf("opening %d failed, but its socket is still open", i)
			}
			if n := srv.Accepted() - accepted; n > 1 {
				return fmt.Errorf("one opening made %d connections", n)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("opening %d of a healthy server (version %d, user %q, password %q) failed: %s", i, o.Ver, o.User, o.Pass, oneLine(err))
		}
		ctx.Label("opened")
		if conn == nil {
			return fmt.Errorf("opening %d gave neither a connection nor an error", i)
		}
		if conn.GetProtocolVersionNumber() != o.Ver || string(conn.GetProtocolVersionBytes()) != string(o.Choice) {
			return fmt.Errorf("the server chose version %d, the connection reports %d (% x)", o.Ver, conn.GetProtocolVersionNumber(), conn.GetProtocolVersionBytes())
		}
		if !conn.ValidateOpen() {
			return fmt.Errorf("a new connection reports not open")
		}
		rows, _, err := conn.Query(o.Query, nil)
		if err != nil {
			return fmt.Errorf("the first query on a new connection failed: %s", oneLine(err))
		}
		if err := sameRows(o.Rows, rows); err != nil {
			return err
		}
		if err := conn.Close(); err != nil {
			return fmt.Errorf("close: %s", oneLine(err))
		}
		if !srv.WaitAllEnded(patience) {
			return fmt.Errorf("the socket is still open after Close")
		}
		var kinds string
		for _, e := range log() {
			kinds += " " + e.Kind
			if e.Kind == "init" {
				m := e.Meta
				for k, want := range map[string]string{"scheme": "basic", "principal": o.User, "credentials": o.Pass} {
					if v, ok := m.Get(k); !ok || v.K != ps.Str || string(v.S) != want {
						return fmt.Errorf("the authentication token's %s is %s, given %q", k, ps.Show(v), want)
					}
				}
			}
		}
		want := " accept handshake init run pull eof"
		if o.Ver >= 3 {
			want = " accept handshake init run pull goodbye eof"
		}
		if o.TLS {
			want = strings.Replace(want, " accept", " accept tls", 1)
		}
		if kinds != want {
			return fmt.Errorf("the server saw%s, should have seen%s", kinds, want)
		}
	}
	if v := srv.Violations(); len(v) > 0 {
		return fmt.Errorf("protocol violation: %s", v[0])
	}
	srv.Close()
	return leak()
}

func faultNote2(f *fault) string {
	if f == nil {
		return "none"
	}
	return faultNote(f)
}

func init() {
	prop.Add(prop.Part{Prop: "C10", Name: "opening",
		Rule:  "1-3 openings in a row of a server with a generated script: choice of version (offered, none, unknown), replies split at generated places, user and password of generated characters, refusal, malformed or out-of-place reply, disconnect at a generated byte, nothing listening; non-trivial: not a plain success",
		Quick: 16000, Thorough: 200000},
		genOpening,
		func(ctx *prop.Ctx, o opening) error {
			if !o.good() || o.Frags != nil {
				ctx.NonTrivial()
			}
			return runOpening(ctx, o, false)
		})
	prop.Add(prop.Part{Prop: "C12", Name: "refused",
		Rule:  "1-3 openings refused by the server with a generated code and message, the server closing or ignoring the rest; the error's innermost cause compared; non-trivial: all",
		Quick: 2000, Thorough: 40000},
		func(t *rapid.T) opening {
			o := genOpening(t)
			o.Choice, o.Greet, o.Fault, o.Dead = []byte{0, 0, 0, byte(o.Ver)}, nil, nil, false
			o.Init = rapid.SampledFrom([]string{"failure", "close-failure"}).Draw(t, "refusal2")
			o.Code, o.Msg = genCode(t)
			return o
		},
		func(ctx *prop.Ctx, o opening) error {
			ctx.NonTrivial()
			return runOpening(ctx, o, true)
		})
}
