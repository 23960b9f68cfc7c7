package checks

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/mindstand/go-bolt/connection"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// The history engine: a generated sequence of operations on one connection is
// run against the scripted server and against a model of what must happen.

// op is one operation and what the server does about it.
type op struct {
	K      string `json:"k"` // query exec txquery txexec begin commit rollback oldtx validate idle close
	Sub    string `json:"sub,omitempty"`
	Q      string `json:"q,omitempty"`
	P      ps.V   `json:"p"`
	NilP   bool   `json:"nilp,omitempty"`
	Bad    bool   `json:"bad,omitempty"` // one more parameter that cannot be carried
	BadV   ps.V   `json:"badv"`
	DB     string `json:"db,omitempty"`
	HasDB  bool   `json:"hasdb,omitempty"` // use the WithDb variants
	Rows   []ps.V `json:"rows,omitempty"`
	RunM   ps.V   `json:"runm"`
	Sum    ps.V   `json:"sum"`
	Fail   string `json:"fail,omitempty"`  // kind of request answered with FAILURE: run, pull, begin, commit, rollback
	RFail  bool   `json:"rfail,omitempty"` // and the RESET that follows as well
	FailAt int    `json:"failat,omitempty"`
	Code   string `json:"code,omitempty"`
	Msg    string `json:"msg,omitempty"`
	Fault  *fault `json:"fault,omitempty"`
	HangUp string `json:"hangup,omitempty"` // before the operation the server closes the connection: close, rst, word
	Late   int    `json:"late,omitempty"`   // milliseconds before the server answers
	FMore  ps.V   `json:"fmore,omitzero"`   // what else the failure carries
}

// fault damages one reply.
type fault struct {
	On    string `json:"on"`   // kind of request whose reply is damaged
	Kind  string `json:"kind"` // close rst stall bad
	At    int    `json:"at"`   // bytes sent before, per mille of the reply if Rel
	Rel   bool   `json:"rel,omitempty"`
	Reply []byte `json:"reply,omitempty"` // bad: the framed reply sent instead
	Note  string `json:"note,omitempty"`
}

type hist struct {
	Ver    int   `json:"ver"`
	Chunk  int   `json:"chunk,omitempty"`
	Chunks []int `json:"chunks,omitempty"`
	Frags  []int `json:"frags,omitempty"`
	TLS    bool  `json:"tls,omitempty"`
	Ops    []op  `json:"ops"`
	Close  bool  `json:"close"`           // close properly at the end
	Cause  bool  `json:"cause,omitempty"` // judge what the errors say as well
}

// engine state
type engine struct {
	ctx    *prop.Ctx
	h      hist
	srv    *fb.Server
	conn   connection.IConnection
	tx     connection.ITransaction
	old    connection.ITransaction
	mu     sync.Mutex
	cur    *op
	cut    bool // the fault of the current operation left the reply incomplete
	hit    bool // the fault was applied
	open   bool
	inTx   bool
	txDB   string
	seen   int // log entries consumed
	pend   []fb.Effect
	done   []fb.Effect
	maybe  []fb.Effect // may or may not have been committed, after done, at the end
	closed bool        // by Close
	kept   []kept      // what earlier statements returned
}

// kept is a result that must stay what it is.
type kept struct {
	o    op
	rows [][]interface{}
	res  connection.IResult
}

func (e *engine) handle(r *fb.Request) *fb.Reply {
	e.mu.Lock()
	defer e.mu.Unlock()
	rep := &fb.Reply{}
	if e.cur == nil {
		return rep
	}
	if e.cur.RunM.K == "" {
		e.cur.RunM = fb.Empty()
	}
	if e.cur.Sum.K == "" {
		e.cur.Sum = fb.Empty()
	}
	o := e.cur
	if o.Late > 0 && r.Kind != "goodbye" {
		rep.Delay = time.Duration(o.Late) * time.Millisecond
	}
	kind := r.Kind
	if kind == "pull" && (o.K == "begin" || o.K == "commit" || o.K == "rollback") {
		kind = o.K + "-pull" // versions 1 and 2
	}
	fail := o.Fail == kind
	stmt := o.K == "query" || o.K == "exec" || o.K == "txquery" || o.K == "txexec"
	switch {
	case kind == "run" && stmt && !fail:
		rep.Msgs = []ps.V{fb.Success(o.RunM)}
	case kind == "pull" && stmt:
		rows := o.Rows
		if fail && o.FailAt < len(rows) {
			rows = rows[:o.FailAt]
		}
		for _, row := range rows {
			rep.Msgs = append(rep.Msgs, fb.Record(row))
		}
		if !fail {
			rep.Msgs = append(rep.Msgs, fb.Success(o.Sum))
		}
	}
	if kind == "reset" && o.RFail {
		e.hit, e.cut = true, true
		rep.Msgs = []ps.V{fb.Failure("Neo.DatabaseError.General.UnknownError", "cannot reset")}
		return rep
	}
	if fail {
		rep.Msgs = append(rep.Msgs, o.failure())
	}
	if f := o.Fault; f != nil && f.On == kind && !e.hit {
		e.hit = true
		if rep.Msgs == nil {
			rep.Msgs = []ps.V{fb.Success(fb.Empty())}
		}
		n := len(r.Conn.Server().Frame(rep.Msgs))
		if f.Kind == "bad" {
			rep.Raw = f.Reply
			e.cut = true
			return rep
		}
		at := f.At
		if f.Rel {
			at = n * f.At / 1000
		}
		if at > n {
			at = n
		}
		if f.Kind == "stall" && at >= n {
			at = n - 1
		}
		e.cut = at < n
		rep.Fault = &fb.Fault{Kind: f.Kind, At: at}
	}
	return rep
}

// expected server log entry
type exp struct {
	kind   string
	query  string
	params *ps.V
	meta   *ps.V
	failed int // 0 no, 1 yes, 2 any
}

func emptyMap() *ps.V { m := ps.V{K: ps.Map}; return &m }

func (e *engine) events() []fb.Event {
	l := e.srv.Log()
	out := l[e.seen:]
	e.seen = len(l)
	return out
}

func showEvents(es []fb.Event) string {
	var b strings.Builder
	for _, x := range es {
		fmt.Fprintf(&b, " %s", x.Kind)
		if x.Query != "" {
			fmt.Fprintf(&b, "(%.40q)", x.Query)
		}
		if x.Failed {
			b.WriteString("!")
		}
	}
	if b.Len() == 0 {
		return " nothing"
	}
	return b.String()
}

// expect compares what reached the server.
func (e *engine) expect(got []fb.Event, want []exp) error {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = got[i].Kind == want[i].kind
	}
	if !ok {
		var ks []string
		for _, w := range want {
			ks = append(ks, w.kind)
		}
		return fmt.Errorf("the server saw%s, should have seen %s", showEvents(got), strings.Join(ks, " "))
	}
	for i, w := range want {
		g := got[i]
		if w.kind == "run" && g.Query != w.query {
			return fmt.Errorf("the query arrived as %.100q, given %.100q", g.Query, w.query)
		}
		if w.params != nil {
			if d := ps.Diff(*w.params, g.Params); d != "" {
				return fmt.Errorf("the parameters of %s arrived changed: %s", w.kind, d)
			}
		}
		if w.meta != nil {
			gm := g.Meta
			if gm.K == "" {
				gm = ps.V{K: ps.Map}
			}
			if d := ps.Diff(*w.meta, gm); d != "" {
				return fmt.Errorf("the metadata of %s is wrong: %s (got %s)", w.kind, d, ps.Show(gm))
			}
		}
		if w.failed < 2 && g.Failed != (w.failed == 1) {
			return fmt.Errorf("%s: server-side outcome failed=%v is not what was scripted", w.kind, g.Failed)
		}
		for _, c := range g.Chunks {
			lim := e.h.Chunk
			if lim == 0 {
				lim = 65535
			}
			if c > lim {
				return fmt.Errorf("a chunk of %d bytes was sent, the configured size is %d", c, lim)
			}
		}
	}
	return nil
}

func (e *engine) effectOf(o op) fb.Effect {
	p := o.P.Expand()
	if o.NilP {
		p = *emptyMap()
	}
	return fb.Effect{Query: o.Q, Params: p}
}

func sameEffects(want, maybe, got []fb.Effect) error {
	eq := func(a, b fb.Effect) bool { return a.Query == b.Query && ps.Diff(a.Params, b.Params) == "" }
	for i, g := range got {
		if i < len(want) {
			if !eq(want[i], g) {
				return fmt.Errorf("effect %d is %.60q, should be %.60q", i, g.Query, want[i].Query)
			}
		} else if i-len(want) >= len(maybe) || !eq(maybe[i-len(want)], g) {
			return fmt.Errorf("%.60q took effect, which it must not", g.Query)
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%.60q did not take effect", want[len(got)].Query)
	}
	if n := len(got) - len(want); n != 0 && n != len(maybe) {
		return fmt.Errorf("a transaction took effect in part: %d of %d statements", n, len(maybe))
	}
	return nil
}

func (e *engine) statement(o op, inTx bool) (rows [][]interface{}, res connection.IResult, err error) {
	params := connection.QueryParams(toGoMap(o.P.Expand()))
	if o.NilP {
		params = nil
	}
	if o.Bad {
		if params == nil {
			params = connection.QueryParams{}
		}
		params["~bad"] = toGo(o.BadV.Expand())
	}
	var q connection.IQuery = e.conn
	if inTx {
		q = e.tx
	}
	exec := strings.HasSuffix(o.K, "exec")
	switch {
	case exec && o.HasDB:
		res, err = q.ExecWithDb(o.Q, params, o.DB)
	case exec:
		res, err = q.Exec(o.Q, params)
	case o.HasDB:
		rows, res, err = q.QueryWithDb(o.Q, params, o.DB)
	default:
		rows, res, err = q.Query(o.Q, params)
	}
	return
}

// nothing checks that an operation was refused without traffic.
func (e *engine) nothing(err error, why string) error {
	if err == nil {
		return fmt.Errorf("%s, but it reported success", why)
	}
	if ev := withoutEOF(e.events()); len(ev) != 0 && (e.open || e.closed) {
		return fmt.Errorf("%s, but the server saw%s", why, showEvents(ev))
	}
	if e.open {
		return e.toldRefused(err, why)
	}
	return nil
}

func withoutEOF(es []fb.Event) []fb.Event {
	var out []fb.Event
	for _, x := range es {
		if x.Kind != "eof" {
			out = append(out, x)
		}
	}
	return out
}

// broken checks the consequences of a fault that was hit.
func (e *engine) broken() {
	e.open = false
	if e.inTx {
		e.old = e.tx
	}
	e.inTx, e.tx, e.pend = false, nil, nil
}

// settle lets the server take in what was under way when the connection broke.
func (e *engine) settle() {
	e.srv.WaitAllEnded(time.Second)
	e.events()
}

func (e *engine) begin(db string, has bool) (connection.ITransaction, error) {
	if has {
		return e.conn.BeginWithDatabase(db)
	}
	return e.conn.Begin()
}

// reaches reports that the operation must talk to the server (or look at the socket).
func (e *engine) reaches(o op) bool {
	refused := e.h.Ver < 4 && o.HasDB && o.DB != ""
	switch o.K {
	case "query", "exec":
		return !e.inTx && !refused && !o.Bad
	case "txquery", "txexec":
		return e.tx != nil && !refused && !o.Bad && !(o.HasDB && o.DB != "" && o.DB != e.txDB)
	case "begin":
		return !e.inTx && !refused
	case "commit", "rollback":
		return e.tx != nil
	case "idle":
		return e.inTx
	}
	return true
}

// step runs one operation.
func (e *engine) step(o op) error {
	e.mu.Lock()
	e.cur, e.cut, e.hit = &o, false, false
	e.mu.Unlock()
	defer func() { e.mu.Lock(); e.cur = nil; e.mu.Unlock() }()
	if o.HangUp != "" && e.open && e.reaches(o) {
		e.ctx.Label("hangup-" + o.HangUp)
		for _, c := range e.srv.Live() {
			if o.HangUp == "word" {
				c.Farewell()
			} else {
				c.HangUp(o.HangUp == "rst")
			}
		}
		e.events()
		if o.K == "validate" {
			if e.conn.ValidateOpen() {
				return fmt.Errorf("the connection reports open after the server closed it")
			}
			e.broken()
			return nil
		}
		// whatever comes now fails for lack of an answer
		o.Fault = &fault{On: "*", Kind: "close"}
	}
	stall := o.Fault != nil && o.Fault.Kind == "stall"
	if stall && e.open {
		e.conn.SetTimeout(40 * time.Millisecond)
		defer e.conn.SetTimeout(answerTime)
	}
	refusedDB := e.h.Ver < 4 && o.HasDB && o.DB != ""
	switch o.K {
	case "query", "exec", "txquery", "txexec":
		inTx := strings.HasPrefix(o.K, "tx")
		if inTx && e.tx == nil && e.old == nil {
			return nil
		}
		if !inTx && e.inTx {
			return nil // what a statement on the connection does meanwhile is not specified
		}
		if inTx && e.tx == nil {
			t := e.tx
			e.tx = e.old
			_, _, err := e.statement(o, true)
			e.tx = t
			e.ctx.Label("stmt-on-ended-tx")
			return e.nothing(err, "a statement was given to a transaction that is over")
		}
		rows, res, err := e.statement(o, inTx)
		switch {
		case !e.open:
			return e.nothing(err, "a statement was given to a connection that is not open")
		case o.Fault != nil && o.Fault.On == "*":
			e.broken()
			return e.gone(o, err)
		case refusedDB:
			e.ctx.Label("db-refused")
			return e.nothing(err, fmt.Sprintf("version %d knows no databases", e.h.Ver))
		case inTx && o.HasDB && o.DB != "" && o.DB != e.txDB:
			e.ctx.Label("db-refused-tx")
			return e.nothing(err, fmt.Sprintf("a statement named database %q in a transaction on %q", o.DB, e.txDB))
		case o.Bad:
			e.ctx.Label("unsendable")
			return e.nothing(err, "a parameter cannot be carried")
		}
		return e.afterStatement(o, inTx, rows, res, err)
	case "begin":
		tx, err := e.begin(o.DB, o.HasDB)
		switch {
		case !e.open:
			return e.nothing(err, "begin on a connection that is not open")
		case o.Fault != nil && o.Fault.On == "*" && !e.inTx && !refusedDB:
			e.broken()
			return e.gone(o, err)
		case refusedDB:
			e.ctx.Label("db-refused")
			return e.nothing(err, fmt.Sprintf("version %d knows no databases", e.h.Ver))
		case e.inTx:
			e.ctx.Label("begin-in-tx")
			return e.nothing(err, "a transaction is open already")
		}
		meta := emptyMap()
		if o.HasDB && o.DB != "" {
			m := ps.MapV("db", ps.StrV(o.DB))
			meta = &m
		}
		ok, ferr := e.afterTxRequest(o, meta, err)
		if ferr != nil {
			return ferr
		}
		if ok {
			if tx == nil {
				return fmt.Errorf("begin gave neither a transaction nor an error")
			}
			if tx.IsClosed() {
				return fmt.Errorf("a new transaction reports closed")
			}
			e.tx, e.inTx, e.pend, e.txDB = tx, true, nil, ""
			if o.HasDB {
				e.txDB = o.DB
			}
		}
		return nil
	case "commit", "rollback":
		t := e.tx
		if t == nil {
			t = e.old
		}
		if t == nil {
			return nil
		}
		var err error
		if o.K == "commit" {
			err = t.Commit()
		} else {
			err = t.Rollback()
		}
		if e.tx == nil {
			e.ctx.Label("end-of-ended-tx")
			if !t.IsClosed() {
				return fmt.Errorf("a transaction that is over reports open")
			}
			return e.nothing(err, o.K+" of a transaction that is over")
		}
		if o.Fault != nil && o.Fault.On == "*" {
			e.broken()
			if !t.IsClosed() {
				return fmt.Errorf("the transaction reports open though its connection is gone")
			}
			return e.gone(o, err)
		}
		pend := e.pend
		ok, ferr := e.afterTxRequest(o, nil, err)
		if ferr != nil {
			return ferr
		}
		if !t.IsClosed() {
			return fmt.Errorf("after %s (error: %v) the transaction reports open", o.K, err)
		}
		if ok {
			if o.K == "commit" {
				e.done = append(e.done, pend...)
			}
			e.old, e.tx, e.inTx, e.pend = t, nil, false, nil
		} else if o.K == "commit" && e.hit {
			e.maybe = pend // the answer was lost
		}
		return nil
	case "validate":
		got := e.conn.ValidateOpen()
		if got != e.open {
			return fmt.Errorf("the connection reports open=%v, it is %v", got, e.open)
		}
		if len(withoutEOF(e.events())) != 0 {
			return fmt.Errorf("checking a connection sent something")
		}
		if e.tx != nil && e.tx.IsClosed() {
			return fmt.Errorf("an open transaction reports closed")
		}
		return nil
	case "idle":
		if !e.inTx {
			err := e.conn.MakeIdle()
			if err != nil {
				return fmt.Errorf("MakeIdle without a transaction: %v", oneLine(err))
			}
			if ev := withoutEOF(e.events()); len(ev) != 0 {
				return fmt.Errorf("MakeIdle without a transaction sent%s", showEvents(ev))
			}
			return nil
		}
		t := e.tx
		o2 := o
		o2.K = "rollback"
		e.mu.Lock()
		e.cur = &o2
		e.mu.Unlock()
		err := e.conn.MakeIdle()
		if o.Fault != nil && o.Fault.On == "*" {
			e.broken()
			return e.gone(o, err)
		}
		ok, ferr := e.afterTxRequest(o2, nil, err)
		if ferr != nil {
			return ferr
		}
		if !t.IsClosed() {
			return fmt.Errorf("after MakeIdle the transaction reports open")
		}
		if ok {
			e.old, e.tx, e.inTx, e.pend = t, nil, false, nil
		}
		return nil
	case "close":
		return e.closeConn(o)
	}
	return prop.Infra("unknown operation %q", o.K)
}

// faulty decides what a fault that was hit means: must the operation have
// failed, may it have?
func (e *engine) faulty(o op, last string, err error) (hit, mustFail, mayFail bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	f := o.Fault
	if !e.hit && f != nil && f.Kind == "stall" && err != nil && !(o.Fail != "" && isFailure(err, o.Code, o.Msg) == nil) {
		return true, true, true // a slow machine: timed out before the stall
	}
	if !e.hit {
		return false, false, false
	}
	switch {
	case o.RFail:
		return true, true, true
	case f.Kind == "bad":
		return true, true, true
	case f.On == last && !e.cut:
		// the whole answer was sent before the fault
		return true, false, f.Kind == "rst"
	}
	return true, true, true
}

func (e *engine) afterStatement(o op, inTx bool, rows [][]interface{}, res connection.IResult, err error) error {
	last := "pull"
	if o.Fail == "run" {
		last = "reset"
	}
	if o.Fail == "pull" {
		last = "reset"
	}
	hit, must, may := e.faulty(o, last, err)
	if hit && o.RFail && o.Fault == nil {
		if e2 := isFailure(err, o.Code, o.Msg); e2 != nil {
			return e2
		}
	}
	if hit {
		e.ctx.Label("fault-" + faultKind(o))
		defer e.events()
		if e2 := e.toldBroken(o, err); e2 != nil {
			return e2
		}
		eff := e.effectOf(o)
		if must && err == nil {
			return fmt.Errorf("%s, but the statement reported success with %d rows", faultNote(o.Fault), len(rows))
		}
		if err != nil && (rows != nil || res != nil) {
			return fmt.Errorf("a failed statement returned rows or a result as well")
		}
		if !must && !may && o.Fail == "" {
			if err != nil {
				return fmt.Errorf("the server answered completely before it closed the connection, but the statement failed: %s", oneLine(err))
			}
		}
		if err == nil {
			if e2 := e.sameResult(o, rows, res); e2 != nil {
				return e2
			}
		}
		if !inTx {
			if err == nil {
				e.done = append(e.done, eff)
			} else if o.Fail == "" || o.Fail == "pull" && o.Fault != nil && o.Fault.On == "run" {
				// the request already under way may have been answered otherwise
				e.maybe = []fb.Effect{eff}
			}
		}
		e.release()
		wasTx := e.inTx
		t := e.tx
		e.broken()
		if wasTx && err != nil && !t.IsClosed() {
			return fmt.Errorf("the connection broke, but the transaction reports open")
		}
		// a complete answer followed by a closed connection: noticed when looked at
		if !e.srv.GoneDown(patience) {
			return prop.Infra("the server's close did not arrive")
		}
		if e.conn.ValidateOpen() {
			return fmt.Errorf("after %s the connection reports open (the statement's error: %v)", faultNote(o.Fault), err)
		}
		e.settle()
		return nil
	}
	ev := e.events()
	meta := emptyMap()
	if !inTx && o.HasDB && o.DB != "" {
		m := ps.MapV("db", ps.StrV(o.DB))
		meta = &m
	}
	if e.h.Ver <= 2 {
		meta = nil
	}
	eff := e.effectOf(o)
	f := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	want := []exp{{"run", o.Q, &eff.Params, meta, f(o.Fail == "run")}, {"pull", "", nil, nil, f(o.Fail == "run" || o.Fail == "pull")}}
	if o.Fail == "run" || o.Fail == "pull" {
		want = append(want, exp{"reset", "", nil, nil, 0})
		e.ctx.Label("failed-" + o.Fail)
		if err == nil {
			return fmt.Errorf("the server failed the statement, but it reported success")
		}
		if rows != nil || res != nil {
			return fmt.Errorf("a failed statement returned rows or a result as well")
		}
		if e2 := isFailure(err, o.Code, o.Msg); e2 != nil {
			return e2
		}
		if e2 := e.toldFailure(o, err); e2 != nil {
			return e2
		}
		if e2 := e.expect(ev, want); e2 != nil {
			return e2
		}
		if inTx {
			t := e.tx
			e.old, e.tx, e.inTx, e.pend = t, nil, false, nil
			if !t.IsClosed() {
				return fmt.Errorf("a statement of the transaction failed, but the transaction reports open")
			}
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("the server answered successfully, but the statement failed: %s", oneLine(err))
	}
	if e2 := e.expect(ev, want); e2 != nil {
		return e2
	}
	if e2 := e.sameResult(o, rows, res); e2 != nil {
		return e2
	}
	if inTx {
		e.pend = append(e.pend, eff)
	} else {
		e.done = append(e.done, eff)
	}
	return nil
}

func faultKind(o op) string {
	if o.Fault == nil {
		return "reset-refused"
	}
	return o.Fault.Kind + "-" + o.Fault.On
}

func faultNote(f *fault) string {
	if f == nil {
		return "a failed reset"
	}
	if f.Kind == "bad" {
		return "bad reply to " + f.On + ": " + f.Note
	}
	return fmt.Sprintf("%s inside or after the reply to %s", f.Kind, f.On)
}

func (e *engine) release() {
	for _, c := range e.srv.Conns() {
		c.Release()
	}
}

func (e *engine) sameResult(o op, rows [][]interface{}, res connection.IResult) error {
	if strings.HasSuffix(o.K, "query") {
		if err := sameRows(o.Rows, rows); err != nil {
			return err
		}
	}
	if res == nil {
		return fmt.Errorf("neither a result nor an error")
	}
	if err := same(o.Sum.Expand(), res.Metadata()); err != nil {
		return fmt.Errorf("summary metadata: %v", err)
	}
	e.kept = append(e.kept, kept{o, rows, res})
	return nil
}

// afterTxRequest judges begin, commit and rollback; ok: it must have taken place.
func (e *engine) afterTxRequest(o op, meta *ps.V, err error) (ok bool, bad error) {
	last := o.K
	if e.h.Ver <= 2 {
		last = o.K + "-pull"
	}
	if o.Fail == o.K || o.Fail == o.K+"-pull" && e.h.Ver <= 2 {
		last = "reset"
	}
	hit, must, may := e.faulty(o, last, err)
	if hit {
		e.ctx.Label("fault-" + faultKind(o))
		defer e.events()
		if e2 := e.toldBroken(o, err); e2 != nil {
			return false, e2
		}
		if must && err == nil {
			return false, fmt.Errorf("%s, but %s reported success", faultNote(o.Fault), o.K)
		}
		if !must && !may && o.Fail == "" && err != nil {
			return false, fmt.Errorf("the server answered %s completely before it closed the connection, but it failed: %s", o.K, oneLine(err))
		}
		if o.K == "commit" && err == nil {
			e.done = append(e.done, e.pend...)
			e.hit = false
		}
		e.release()
		pend := e.pend
		e.broken()
		e.pend = pend
		if !e.srv.GoneDown(patience) {
			return false, prop.Infra("the server's close did not arrive")
		}
		if e.conn.ValidateOpen() {
			return false, fmt.Errorf("after %s the connection reports open (%s returned: %v)", faultNote(o.Fault), o.K, err)
		}
		e.settle()
		return false, nil
	}
	ev := e.events()
	failed := last == "reset"
	f := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	if e.h.Ver <= 2 {
		meta = nil
	}
	want := []exp{{o.K, "", nil, meta, f(o.Fail == o.K)}}
	if e.h.Ver <= 2 {
		want = append(want, exp{"pull", "", nil, nil, f(failed)})
	}
	if failed {
		want = append(want, exp{"reset", "", nil, nil, 0})
		e.ctx.Label("failed-" + o.Fail)
		if err == nil {
			return false, fmt.Errorf("the server failed %s, but it reported success", o.K)
		}
		if e2 := isFailure(err, o.Code, o.Msg); e2 != nil {
			return false, e2
		}
		if e2 := e.toldFailure(o, err); e2 != nil {
			return false, e2
		}
		if e2 := e.expect(ev, want); e2 != nil {
			return false, e2
		}
		if e.inTx {
			e.old = e.tx
		}
		e.tx, e.inTx = nil, false
		return false, nil
	}
	if err != nil {
		return false, fmt.Errorf("the server accepted %s, but it failed: %s", o.K, oneLine(err))
	}
	if e2 := e.expect(ev, want); e2 != nil {
		return false, e2
	}
	return true, nil
}

// closeConn closes and checks that the connection is released.
func (e *engine) closeConn(o op) error {
	wasOpen, wasTx, hung := e.open, e.inTx, o.HangUp != ""
	t := e.tx
	o2 := o
	o2.K = "rollback"
	e.mu.Lock()
	e.cur = &o2
	e.mu.Unlock()
	err := e.conn.Close()
	e.mu.Lock()
	hit := e.hit
	e.mu.Unlock()
	wasClosed := e.closed
	e.closed = true
	if !wasOpen {
		if err == nil && wasClosed {
			return fmt.Errorf("closing a connection that is not open reported success")
		}
		if ev := withoutEOF(e.events()); len(ev) != 0 && wasClosed {
			return fmt.Errorf("closing a connection that is not open sent%s", showEvents(ev))
		}
		return nil
	}
	e.release()
	e.broken()
	if t != nil && !t.IsClosed() {
		return fmt.Errorf("the connection was closed, but its transaction reports open")
	}
	if e.conn.ValidateOpen() {
		return fmt.Errorf("a closed connection reports open")
	}
	if !(hung && o.HangUp == "rst") {
		if !e.srv.WaitAllEnded(5 * time.Second) {
			return fmt.Errorf("the connection was closed (error: %v), but its socket is still open", err)
		}
	}
	ev := withoutEOF(e.events())
	if hung || hit {
		e.ctx.Label("close-broken")
		return nil
	}
	failed := wasTx && (o.Fail == "rollback" || o.Fail == "rollback-pull" && e.h.Ver <= 2)
	if err != nil && !failed {
		return fmt.Errorf("closing a healthy connection failed: %s", oneLine(err))
	}
	var want []exp
	if wasTx {
		e.ctx.Label("close-in-tx")
		rb := 0
		if o.Fail == "rollback" {
			rb = 1
		}
		want = append(want, exp{"rollback", "", nil, nil, rb})
		if e.h.Ver <= 2 {
			want = append(want, exp{"pull", "", nil, nil, 2})
		}
		if failed {
			want = append(want, exp{"reset", "", nil, nil, 0})
		}
	}
	if e.h.Ver >= 3 {
		want = append(want, exp{"goodbye", "", nil, nil, 0})
	}
	return e.expect(ev, want)
}

// answerTime is the timeout of the connections: the server answers at once, so
// that a driver that waits for something that does not come is soon found.
const answerTime = 10 * time.Second

// runHist runs a history.
func runHist(ctx *prop.Ctx, h hist) error {
	e := &engine{ctx: ctx, h: h, open: true}
	leak := leakGuard()
	tc, err := serverTLS(h.TLS)
	if err != nil {
		return err
	}
	if h.TLS {
		ctx.Label("encrypted")
	}
	srv, err := fb.New(fb.Config{Version: h.Ver, CheckAuth: true, User: "neo4j", Pass: "pw", Chunks: h.Chunks, Frags: h.Frags, Handler: e.handle, TLS: tc})
	if err != nil {
		return prop.Infra("listen: %v", err)
	}
	ctx.Cleanup(srv.Close)
	e.srv = srv
	conn, err := open(ctx, srv)
	if err != nil {
		return err
	}
	e.conn = conn
	conn.SetTimeout(answerTime)
	if h.Chunk > 0 {
		conn.SetChunkSize(uint16(h.Chunk))
	}
	if conn.GetProtocolVersionNumber() != h.Ver {
		return fmt.Errorf("the server chose version %d, the connection reports %d", h.Ver, conn.GetProtocolVersionNumber())
	}
	e.events()
	for i, o := range h.Ops {
		o := o
		if err := e.step(o); err != nil {
			if prop.IsInfra(err) {
				return err
			}
			return fmt.Errorf("operation %d (%s %.40q, version %d): %v", i, o.K, o.Q, h.Ver, err)
		}
		if v := srv.Violations(); len(v) > 0 {
			return fmt.Errorf("operation %d (%s %.40q, version %d): protocol violation: %s", i, o.K, o.Q, h.Ver, v[0])
		}
	}
	if e.open && h.Close {
		if err := e.closeConn(op{K: "close"}); err != nil {
			return fmt.Errorf("closing at the end (version %d): %v", h.Ver, err)
		}
	}
	if v := srv.Violations(); len(v) > 0 {
		return fmt.Errorf("protocol violation at the end: %s", v[0])
	}
	if !e.open {
		// nothing works any more, and nothing more is sent
		for _, o := range []op{{K: "query", Q: "RETURN 1", P: *emptyMap()}, {K: "exec", Q: "RETURN 1", P: *emptyMap()}, {K: "begin"}, {K: "validate"}, {K: "close"}} {
			if err := e.step(o); err != nil {
				return fmt.Errorf("%s on a connection that is gone: %v", o.K, err)
			}
		}
	}
	ks := e.kept
	for i, k := range ks {
		if err := e.sameResult(k.o, k.rows, k.res); err != nil {
			return fmt.Errorf("the result of statement %d of %d changed after it was returned: %v", i, len(ks), err)
		}
	}
	eff := srv.Effects()
	if err := sameEffects(e.done, e.maybe, eff); err != nil {
		return err
	}
	stillOpen := e.open
	srv.Close()
	if stillOpen {
		_ = conn.Close()
	}
	return leak()
}
