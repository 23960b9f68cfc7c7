package checks

import (
	"bytes"
	"fmt"
	"time"

	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/protocol"
	"github.com/mindstand/go-bolt/structures"
	"github.com/mindstand/go-bolt/structures/messages"
	"pgregory.net/rapid"

	"vharness/prop"
	"vharness/ps"
)

type reqCase struct {
	Ver    int    `json:"ver"`
	What   string `json:"what"`
	Query  ps.V   `json:"query"`
	Params ps.V   `json:"params"`
	NoPar  bool   `json:"nopar,omitempty"`
	TxMeta ps.V   `json:"txmeta"`
	DB     string `json:"db"`
	User   ps.V   `json:"user"`
	Pass   ps.V   `json:"pass"`
	Realm  string `json:"realm"`
	Client string `json:"client"`
	Write  bool   `json:"write"`
	Auto   bool   `json:"auto"`
	MS     int64  `json:"ms"`
	NS     int64  `json:"ns"`
	NoDur  bool   `json:"nodur"`
	Qid    int64  `json:"qid"`
	N      int64  `json:"n"`
}

var reqKinds = []string{"init", "begin", "commit", "rollback", "close", "run", "pull", "discard", "discardall", "reset", "keys", "codec",
	"m-autorun", "m-txrun", "m-begin", "m-buildtx", "m-pull", "m-discard", "m-auth", "m-kerberos", "m-hello", "m-init", "m-run"}

func genReq(t *rapid.T) reqCase {
	str := func(l string) ps.V { return ps.GenStr(t, l, false) }
	c := reqCase{
		Ver: rapid.IntRange(1, 4).Draw(t, "ver"), What: rapid.SampledFrom(reqKinds).Draw(t, "what"),
		Query: str("q"), Params: ps.GenMap(t, ps.GenOpts{Depth: 2, GoTypes: true}), NoPar: rapid.IntRange(0, 4).Draw(t, "nopar") == 0,
		TxMeta: ps.V{K: ps.Map}, User: str("u"), Pass: str("p"),
		DB: rapid.SampledFrom([]string{"", "", "neo4j", "system", "a b", "ü-1"}).Draw(t, "db"), Realm: rapid.SampledFrom([]string{"", "native", "r"}).Draw(t, "realm"),
		Client: rapid.SampledFrom([]string{"GoBolt/0.1", "x", ""}).Draw(t, "client"),
		Write:  rapid.Bool().Draw(t, "write"), Auto: rapid.Bool().Draw(t, "auto"),
		NoDur: rapid.IntRange(0, 3).Draw(t, "nodur") == 0,
		Qid:   rapid.SampledFrom([]int64{-1, 0, 1, 77, 1 << 40}).Draw(t, "qid"), N: rapid.SampledFrom([]int64{-1, 1, 1000, 1 << 40}).Draw(t, "n"),
	}
	if rapid.Bool().Draw(t, "hasmeta") {
		c.TxMeta = ps.GenMap(t, ps.GenOpts{Depth: 1})
	}
	if rapid.Bool().Draw(t, "hasms") {
		c.MS = rapid.SampledFrom([]int64{1, 2, 999, 1000, 30000, 86400000, 1 << 40}).Draw(t, "ms")
		c.NS = rapid.SampledFrom([]int64{0, 0, 1, 499999, 999999}).Draw(t, "ns")
	}
	return c
}

// txMeta is the metadata a transaction request must carry.
func (c reqCase) txMeta(db bool, timeout, config bool) ps.V {
	m := ps.V{K: ps.Map}
	put := func(k string, v ps.V) { m.Keys = append(m.Keys, []byte(k)); m.L = append(m.L, v) }
	if timeout && !c.NoDur && c.MS > 0 {
		put("tx_timeout", ps.IntV(c.MS))
	}
	if config && len(c.TxMeta.Expand().L) > 0 {
		put("tx_metadata", c.TxMeta.Expand())
	}
	if !c.Write {
		put("mode", ps.StrV("r"))
	}
	if db && c.DB != "" {
		put("db", ps.StrV(c.DB))
	}
	return m
}

// on the wire: the structure as the protocol's own encoder writes it
func wireForm(p protocol.IBoltProtocol, s structures.Structure) (ps.V, error) {
	var w bytes.Buffer
	if err := p.NewEncoder(&w, 65535).Encode(s); err != nil {
		return ps.V{}, err
	}
	ms, err := ps.Dechunk(w.Bytes())
	if err != nil || len(ms) != 1 {
		return ps.V{}, fmt.Errorf("not one message: %v", err)
	}
	return ps.Parse(ms[0].Body)
}

func runReq(ctx *prop.Ctx, c reqCase) error {
	p, ver, err := protocol.GetProtocol([]byte{0, 0, 0, byte(c.Ver)})
	if err != nil {
		return fmt.Errorf("version %d: %v", c.Ver, err)
	}
	if ver != c.Ver {
		return fmt.Errorf("version %d is announced as %d", c.Ver, ver)
	}
	if p.SupportsMultiDatabase() != (c.Ver == 4) {
		return fmt.Errorf("version %d: SupportsMultiDatabase() is %v", c.Ver, p.SupportsMultiDatabase())
	}
	ctx.Label(fmt.Sprintf("%s-v%d", c.What, c.Ver))
	query := string(c.Query.Expand().S)
	params := toGoMap(c.Params.Expand())
	wantParams := c.Params.Expand()
	if c.NoPar {
		params, wantParams = nil, ps.V{K: ps.Map}
	}
	user, pass := string(c.User.Expand().S), string(c.Pass.Expand().S)
	mode := bolt_mode.ReadMode
	if c.Write {
		mode = bolt_mode.WriteMode
	}
	var dur *time.Duration
	d := time.Duration(c.MS)*time.Millisecond + time.Duration(c.NS)
	if !c.NoDur {
		dur = &d
	}
	txc := toGoMap(c.TxMeta.Expand())
	if len(txc) == 0 && c.Auto {
		txc = nil
	}
	token := ps.MapV("scheme", ps.StrV("basic"), "principal", ps.StrV(user), "credentials", ps.StrV(pass))
	if c.Realm != "" {
		token = ps.MapV("scheme", ps.StrV("basic"), "principal", ps.StrV(user), "credentials", ps.StrV(pass), "realm", ps.StrV(c.Realm))
	}
	hello := func(tok ps.V) ps.V {
		if c.Ver <= 2 {
			return ps.StructV(0x01, ps.StrV(c.Client), tok)
		}
		h := ps.V{K: ps.Map, Keys: append(append([][]byte{}, tok.Keys...), []byte("user_agent")), L: append(append([]ps.V{}, tok.L...), ps.StrV(c.Client))}
		return ps.StructV(0x01, h)
	}
	v34 := c.Ver >= 3
	pull := func(sig byte, n, qid int64) ps.V {
		m := ps.MapV("n", ps.IntV(n))
		if qid != -1 {
			m = ps.MapV("n", ps.IntV(n), "qid", ps.IntV(qid))
		}
		return ps.StructV(sig, m)
	}
	var got structures.Structure
	var want ps.V
	ctx.NonTrivial()
	switch c.What {
	case "init":
		got, want = p.GetInitMessage(c.Client, messages.BuildAuthTokenBasicWithRealm(user, pass, c.Realm)), hello(token)
	case "begin":
		db := c.DB
		if c.Ver < 4 {
			db, c.DB = "", "" // begins naming a database are refused before (C15)
		}
		got = p.GetTxBeginMessage(db, mode)
		want = ps.StructV(0x10, ps.StrV("BEGIN"), ps.V{K: ps.Map})
		if v34 {
			want = ps.StructV(0x11, c.txMeta(true, false, false))
		}
	case "commit":
		got, want = p.GetTxCommitMessage(), ps.StructV(0x10, ps.StrV("COMMIT"), ps.V{K: ps.Map})
		if v34 {
			want = ps.StructV(0x12)
		}
	case "rollback":
		got, want = p.GetTxRollbackMessage(), ps.StructV(0x10, ps.StrV("ROLLBACK"), ps.V{K: ps.Map})
		if v34 {
			want = ps.StructV(0x13)
		}
	case "close":
		m, ok := p.GetCloseMessage()
		if ok != v34 {
			return fmt.Errorf("version %d: goodbye announced: %v", c.Ver, ok)
		}
		if !ok {
			return nil
		}
		got, want = m, ps.StructV(0x02)
	case "run":
		db := c.DB
		if c.Ver < 4 {
			db, c.DB = "", ""
		}
		got = p.GetRunMessage(query, params, db, mode, c.Auto)
		want = ps.StructV(0x10, ps.StrV(query), wantParams)
		if v34 {
			m := ps.V{K: ps.Map}
			if c.Auto {
				m = c.txMeta(true, false, false)
			}
			want.L = append(want.L, m)
		}
	case "pull":
		got, want = p.GetPullAllMessage(), ps.StructV(0x3f)
		if c.Ver == 4 {
			want = pull(0x3f, -1, -1)
		}
	case "discard":
		got, want = p.GetDiscardMessage(c.Qid), ps.StructV(0x2f)
		if c.Ver == 4 {
			want = pull(0x2f, -1, c.Qid)
		}
	case "discardall":
		got, want = p.GetDiscardAllMessage(), ps.StructV(0x2f)
		if c.Ver == 4 {
			want = pull(0x2f, -1, -1)
		}
	case "reset":
		got, want = messages.NewResetMessage(), ps.StructV(0x0f)
	case "keys":
		a, b := p.GetResultAvailableAfterKey(), p.GetResultConsumedAfterKey()
		if v34 && (a != "t_first" || b != "t_last") || !v34 && (a != "result_available_after" || b != "result_consumed_after") {
			return fmt.Errorf("version %d: result keys %q %q", c.Ver, a, b)
		}
		return nil
	case "codec":
		// version 1 has no spatial types, all later ones do; both directions of the version's own codec
		b, err := p.Marshal(params)
		if err != nil {
			return fmt.Errorf("Marshal: %v", err)
		}
		if err := encoded(wantParams, b); err != nil {
			return err
		}
		x, err := p.Unmarshal(b)
		if err != nil {
			return fmt.Errorf("Unmarshal: %v", err)
		}
		if err := same(wantParams, x); err != nil {
			return err
		}
		pt := ps.Chunk(ps.Encode(ps.StructV('X', ps.IntV(7203), ps.FloatV(1), ps.FloatV(2))), nil)
		x, err = p.NewDecoder(bytes.NewReader(pt)).Decode()
		if c.Ver == 1 && err == nil {
			return fmt.Errorf("version 1 decodes a point as %#v", x)
		}
		if c.Ver > 1 && err != nil {
			return fmt.Errorf("version %d does not decode points: %v", c.Ver, err)
		}
		return nil
	case "m-autorun":
		dd := d
		if c.NoDur {
			dd = 0
		}
		got = messages.NewAutoCommitTxRunMessage(query, params, dd, txc, c.DB, mode)
		want = ps.StructV(0x10, ps.StrV(query), wantParams, c.txMeta(true, true, true))
	case "m-txrun":
		got, want = messages.NewUnmanagedTxRunMessage(query, params), ps.StructV(0x10, ps.StrV(query), wantParams, ps.V{K: ps.Map})
	case "m-begin":
		got = messages.NewBeginMessage(messages.BuildTxMetadataWithDatabase(dur, txc, c.DB, mode, nil))
		want = ps.StructV(0x11, c.txMeta(true, true, true))
	case "m-buildtx":
		got = messages.NewBeginMessage(messages.BuildTxMetadata(dur, txc, mode, nil))
		want = ps.StructV(0x11, c.txMeta(false, true, true))
	case "m-pull":
		got, want = messages.NewPullMessage(c.N, c.Qid), pull(0x3f, c.N, c.Qid)
	case "m-discard":
		got, want = messages.NewDiscardMessage(c.N, c.Qid), pull(0x2f, c.N, c.Qid)
	case "m-auth":
		tok := messages.BuildAuthTokenBasicWithRealm(user, pass, c.Realm)
		if c.Realm == "" && c.Auto {
			tok = messages.BuildAuthTokenBasic(user, pass)
		}
		return same(token, tok)
	case "m-kerberos":
		return same(ps.MapV("scheme", ps.StrV("kerberos"), "principal", ps.StrV(""), "credentials", ps.StrV(pass)), messages.BuildAuthTokenKerberos(pass))
	case "m-hello":
		got, want = messages.NewHelloMessage(params), ps.StructV(0x01, wantParams)
	case "m-init":
		got, want = messages.NewInitMessage(c.Client, params), ps.StructV(0x01, ps.StrV(c.Client), wantParams)
	case "m-run":
		got, want = messages.NewRunMessage(query, params), ps.StructV(0x10, ps.StrV(query), wantParams)
	}
	if got == nil {
		return fmt.Errorf("version %d: no %s message", c.Ver, c.What)
	}
	w, err := wireForm(p, got)
	if err != nil {
		return fmt.Errorf("version %d: %s cannot be sent: %v", c.Ver, c.What, err)
	}
	if d := ps.Diff(want, w); d != "" {
		return fmt.Errorf("version %d: %s: %s\nwant %s\ngot  %s", c.Ver, c.What, d, ps.Show(want), ps.Show(w))
	}
	return nil
}

func init() {
	prop.Add(prop.Part{Prop: "C09", Name: "messages",
		Rule:  "every request of every version built from generated arguments, encoded by the version's own encoder, read by the reference parser and compared with the prescribed structure; all cases are non-trivial",
		Quick: 150000, Thorough: 2000000},
		genReq, runReq)
}
