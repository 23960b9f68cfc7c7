package checks

import (
	stderrors "errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/mindstand/go-bolt/connection"
	berr "github.com/mindstand/go-bolt/errors"
	"github.com/mindstand/go-bolt/structures/messages"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

var counters = []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"}

// countCase is the summary of a statement.
type countCase struct {
	Ver  int  `json:"ver"`
	Meta ps.V `json:"meta"`
	Exec bool `json:"exec"`
	Tx   bool `json:"tx"`
}

func genNotNumber(t *rapid.T) ps.V {
	return rapid.SampledFrom([]ps.V{ps.NilV(), {K: ps.Bool, B: true}, ps.StrV("7"), ps.ListV(ps.IntV(7)), ps.MapV("nodes-created", ps.IntV(7)), ps.StrV("")}).Draw(t, "notnumber")
}

func genCount(t *rapid.T) countCase {
	c := countCase{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Exec: rapid.Bool().Draw(t, "exec"), Tx: rapid.IntRange(0, 3).Draw(t, "tx") == 0, Meta: ps.V{K: ps.Map}}
	add := func(m *ps.V, k string, v ps.V) { m.Keys = append(m.Keys, []byte(k)); m.L = append(m.L, v) }
	if rapid.Bool().Draw(t, "other") {
		add(&c.Meta, "type", ps.StrV("rw"))
	}
	if rapid.IntRange(0, 7).Draw(t, "top") == 0 {
		add(&c.Meta, "nodes-created", ps.IntV(99)) // in the wrong place
	}
	switch kind := rapid.IntRange(0, 9).Draw(t, "stats"); kind {
	case 0:
	case 1:
		add(&c.Meta, "stats", genNotNumber(t))
	case 2:
		add(&c.Meta, "stats", ps.V{K: ps.Map})
	default:
		s := ps.V{K: ps.Map}
		for _, k := range append([]string{"properties-set", "labels-added", "indexes-added"}, counters...) {
			if kind == 3 && rapid.IntRange(0, 3).Draw(t, "sparse") != 0 {
				continue
			}
			switch rapid.IntRange(0, 4).Draw(t, "has") {
			case 0:
			case 1:
				add(&s, k, genNotNumber(t))
			default:
				add(&s, k, ps.IntV(ps.GenInt(t, "n")))
			}
		}
		add(&c.Meta, "stats", s)
	}
	return c
}

func runCount(ctx *prop.Ctx, c countCase) error {
	srv, err := start(ctx, fb.Config{Version: c.Ver, Handler: func(r *fb.Request) *fb.Reply {
		if r.Kind == "pull" && r.Query != "" {
			return &fb.Reply{Msgs: []ps.V{fb.Success(c.Meta)}}
		}
		return nil
	}})
	if err != nil {
		return err
	}
	conn, err := open(ctx, srv)
	if err != nil {
		return err
	}
	defer conn.Close()
	var q connection.IQuery = conn
	if c.Tx {
		tx, err := conn.Begin()
		if err != nil {
			return fmt.Errorf("begin: %s", oneLine(err))
		}
		q = tx
	}
	var res connection.IResult
	if c.Exec {
		res, err = q.Exec("CREATE (n)", nil)
	} else {
		_, res, err = q.Query("CREATE (n)", nil)
	}
	if err != nil {
		return fmt.Errorf("statement failed: %s", oneLine(err))
	}
	if res == nil {
		return fmt.Errorf("no result")
	}
	stats, has := c.Meta.Get("stats")
	has = has && stats.K == ps.Map
	got, ok := res.GetStats()
	if ok != has {
		return fmt.Errorf("GetStats says %v, statistics were sent: %v", ok, has)
	}
	if has {
		if err := same(stats, got); err != nil {
			return fmt.Errorf("GetStats: %v", err)
		}
	}
	for i, f := range []func() (int64, bool){res.GetNodesCreated, res.GetRelationshipsCreated, res.GetNodesDeleted, res.GetRelationshipsDeleted} {
		n, ok := f()
		v, want := stats.Get(counters[i])
		want = want && has && v.K == ps.Int
		if want {
			ctx.NonTrivial()
		}
		if ok != want {
			return fmt.Errorf("the accessor of %s says %v for summary %s", counters[i], ok, ps.Show(c.Meta))
		}
		if ok && n != v.I {
			return fmt.Errorf("%s is %d, the server sent %d", counters[i], n, v.I)
		}
	}
	if err := same(c.Meta, res.Metadata()); err != nil {
		return fmt.Errorf("metadata: %v", err)
	}
	return nil
}

// chain is a wrapped error.
type chain struct {
	Base  string   `json:"base"` // std, bolt, failure, wrapped-std
	Text  string   `json:"text"`
	Code  string   `json:"code,omitempty"`
	Links []string `json:"links"` // messages of the wrappings: kinds of argument use
	Args  []string `json:"args"`
}

var errTexts = []string{"boom", "", "100%", "%s %d %v", "%!", "%%", "a\nb\tc", "ünïcödé 日本", "bolt://u%40x:p%25@h:7687", "[%v] ]; message: [", "%n", "%[1]s %*d"}

func genText(t *rapid.T, l string) string {
	return rapid.OneOf(rapid.SampledFrom(errTexts), rapid.StringOfN(rapid.RuneFrom([]rune("ab%sdv !*[]10#+-\né")), 0, 12, -1)).Draw(t, l)
}

func genChain(t *rapid.T) chain {
	c := chain{Base: rapid.SampledFrom([]string{"std", "bolt", "failure", "wrapped-std", "const"}).Draw(t, "base"), Text: genText(t, "text"), Code: genText(t, "code")}
	n := rapid.IntRange(0, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Links = append(c.Links, rapid.SampledFrom([]string{"%s", "while %s", "[%v]", "%q", "plain", "code %d: %s", "%5s|%-5s|"}).Draw(t, "link"))
		c.Args = append(c.Args, genText(t, "arg"))
	}
	return c
}

func runChain(ctx *prop.Ctx, c chain) error {
	if len(c.Links) > 1 && strings.Contains(c.Text+strings.Join(c.Args, ""), "%") {
		ctx.NonTrivial()
	}
	var base error
	texts := []string{c.Text}
	switch c.Base {
	case "std":
		base = stderrors.New(c.Text)
	case "bolt":
		base = berr.New("%s", c.Text)
	case "failure":
		base = messages.NewFailureMessage(map[string]interface{}{"code": c.Code, "message": c.Text})
		texts = append(texts, c.Code)
	case "wrapped-std":
		base = fmt.Errorf("outer: %w", stderrors.New(c.Text))
	case "const":
		base = berr.ErrClosed
		texts = []string{"resource is already closed"}
	}
	err := base
	for i, l := range c.Links {
		var args []interface{}
		switch strings.Count(l, "%") - 2*strings.Count(l, "%%") {
		case 1:
			args = []interface{}{c.Args[i]}
		case 2:
			args = []interface{}{c.Args[i], c.Args[i]}
			if strings.Contains(l, "%d") {
				args = []interface{}{i, c.Args[i]}
			}
		}
		w := berr.Wrap(err, l, args...)
		if w == nil {
			return fmt.Errorf("wrapping gave nothing")
		}
		if in := w.Inner(); !sameErr(in, err) {
			return fmt.Errorf("Inner is %T %v, wrapped was %T", in, in, err)
		}
		err = w
		texts = append(texts, fmt.Sprintf(l, args...))
	}
	if w, ok := err.(*berr.Error); ok {
		if in := w.InnerMost(); !sameErr(in, base) {
			return fmt.Errorf("the innermost cause is %T %v, the original is %T %v", in, in, base, base)
		}
	}
	s := err.Error()
	for _, x := range texts {
		if !strings.Contains(s, x) {
			return fmt.Errorf("the text %q does not contain %q", cutStack(s), x)
		}
	}
	if s2 := err.Error(); s2 != s {
		return fmt.Errorf("printing twice gives different texts")
	}
	return nil
}

func cutStack(s string) string {
	if i := strings.Index(s, "Stack Trace"); i > 0 {
		s = s[:i]
	}
	return s
}

func sameErr(a, b error) bool {
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	return reflect.DeepEqual(a, b)
}

// failMeta is the metadata of a failure.
type failMeta struct {
	Nil  bool `json:"nil,omitempty"`
	Code ps.V `json:"code"` // K "" when absent
	Msg  ps.V `json:"msg"`
	More ps.V `json:"more"`
	Ver  int  `json:"ver"`
}

func genFailField(t *rapid.T, l string) ps.V {
	switch rapid.IntRange(0, 3).Draw(t, l+"k") {
	case 0:
		return ps.V{}
	case 1:
		return rapid.SampledFrom([]ps.V{ps.NilV(), ps.IntV(7), {K: ps.Bool, B: true}, ps.ListV(ps.StrV("x")), ps.MapV("x", ps.StrV("x"))}).Draw(t, l+"other")
	}
	return ps.StrV(genText(t, l))
}

func genFailMeta(t *rapid.T) failMeta {
	return failMeta{Nil: rapid.IntRange(0, 15).Draw(t, "nil") == 0, Code: genFailField(t, "code"), Msg: genFailField(t, "msg"), More: genNotNumber(t), Ver: rapid.IntRange(1, 4).Draw(t, "ver")}
}

func runFailMeta(ctx *prop.Ctx, c failMeta) error {
	m := map[string]interface{}{"other": toGo(c.More)}
	if c.Code.K != "" {
		m["code"] = toGo(c.Code)
	}
	if c.Msg.K != "" {
		m["message"] = toGo(c.Msg)
	}
	if c.Nil {
		m = nil
	}
	f := messages.NewFailureMessage(m)
	if d := reflect.DeepEqual(f.Metadata, m); !d {
		return fmt.Errorf("the metadata is not the one given")
	}
	neutral := messages.NewFailureMessage(map[string]interface{}{})
	odd := messages.NewFailureMessage(map[string]interface{}{"code": 7, "message": 7})
	check := func(what string, v ps.V, got, absent, other string) error {
		switch {
		case !c.Nil && v.K == ps.Str:
			if got != string(v.S) {
				return fmt.Errorf("the failure's %s is %q, sent was %q", what, got, v.S)
			}
			ctx.NonTrivial()
		case c.Nil || v.K == "":
			if got != absent {
				return fmt.Errorf("the absent %s of a failure reads %q, elsewhere %q", what, got, absent)
			}
		default:
			if got != other {
				return fmt.Errorf("the %s of a failure, a %s, reads %q, another one %q", what, v.K, got, other)
			}
		}
		if !strings.Contains(f.Error(), got) {
			return fmt.Errorf("the failure's text %q lacks its %s %q", f.Error(), what, got)
		}
		return nil
	}
	if err := check("code", c.Code, f.GetCode(), neutral.GetCode(), odd.GetCode()); err != nil {
		return err
	}
	if err := check("message", c.Msg, f.GetMessage(), neutral.GetMessage(), odd.GetMessage()); err != nil {
		return err
	}
	if c.Nil {
		return nil
	}
	// and through a connection
	meta := ps.MapV("other", c.More)
	if c.Code.K != "" {
		meta.Keys, meta.L = append(meta.Keys, []byte("code")), append(meta.L, c.Code)
	}
	if c.Msg.K != "" {
		meta.Keys, meta.L = append(meta.Keys, []byte("message")), append(meta.L, c.Msg)
	}
	srv, err := start(ctx, fb.Config{Version: c.Ver, Handler: func(r *fb.Request) *fb.Reply {
		if r.Kind == "run" || r.Kind == "begin" {
			return &fb.Reply{Msgs: []ps.V{ps.StructV(0x7f, meta)}}
		}
		return nil
	}})
	if err != nil {
		return err
	}
	conn, err := open(ctx, srv)
	if err != nil {
		return err
	}
	defer conn.Close()
	for _, op := range []string{"query", "begin", "exec"} {
		var err error
		switch op {
		case "query":
			_, _, err = conn.Query("RETURN 1", nil)
		case "begin":
			_, err = conn.Begin()
		case "exec":
			_, err = conn.Exec("RETURN 1", nil)
		}
		if e := isFailure(err, f.GetCode(), f.GetMessage()); e != nil {
			return fmt.Errorf("%s: %v", op, e)
		}
		for _, x := range []string{f.GetCode(), f.GetMessage()} {
			if !strings.Contains(err.Error(), x) {
				return fmt.Errorf("%s: the error's text %q lacks %q", op, cutStack(err.Error()), x)
			}
		}
		if !strings.Contains(f.Error(), "%!") && strings.Contains(cutStack(err.Error()), "%!") {
			return fmt.Errorf("%s: the error's text was used as a format: %q", op, cutStack(err.Error()))
		}
	}
	return nil
}

// afterCase is the metadata of a success message as received.
type afterCase struct {
	Ver  int  `json:"ver"`
	Meta ps.V `json:"meta"`
}

func genAfter(t *rapid.T) afterCase {
	c := afterCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), Meta: ps.V{K: ps.Map}}
	add := func(k string, v ps.V) {
		c.Meta.Keys = append(c.Meta.Keys, []byte(k))
		c.Meta.L = append(c.Meta.L, v)
	}
	for _, k := range []string{"fields", "result_consumed_after", "t_first", "result_available_afte"} {
		if rapid.Bool().Draw(t, "has") {
			add(k, ps.IntV(ps.GenInt(t, "n")))
		}
	}
	switch rapid.IntRange(0, 4).Draw(t, "after") {
	case 0:
	case 1:
		add("result_available_after", genNotNumber(t))
	default:
		add("result_available_after", ps.IntV(ps.GenInt(t, "n")))
		c.Meta.L[len(c.Meta.L)-1].W = rapid.SampledFrom([]int{0, 16, 32, 64}).Draw(t, "w")
	}
	return c
}

func runAfter(ctx *prop.Ctx, c afterCase) error {
	got, err := codecFor(c.Ver).unmarshal(ps.Chunk(ps.Append(nil, ps.StructV(0x70, c.Meta)), nil))
	if err != nil {
		return fmt.Errorf("a success message was refused: %v", err)
	}
	m, ok := got.(messages.SuccessMessage)
	if !ok {
		return fmt.Errorf("a success message decoded as %T", got)
	}
	want := int64(-1)
	if v, ok := c.Meta.Get("result_available_after"); ok && v.K == ps.Int {
		want = v.I
		ctx.NonTrivial()
	}
	for i := 0; i < 2; i++ {
		if n := m.GetAvailableAfter(); n != want {
			return fmt.Errorf("the time until the result was available reads %d for %s, should be %d", n, ps.Show(c.Meta), want)
		}
	}
	if n := messages.NewSuccessMessage(nil).GetAvailableAfter(); n != -1 {
		return fmt.Errorf("without metadata the time until the result was available reads %d", n)
	}
	return same(c.Meta, m.Metadata)
}

// viewCase is a set of parameters and rows seen through their helpers.
type viewCase struct {
	Params ps.V   `json:"params"`
	Rows   []ps.V `json:"rows"`
}

func runView(ctx *prop.Ctx, c viewCase) error {
	v := c.Params.Expand()
	q := connection.QueryParams(toGoMap(v))
	if len(v.L) > 1 {
		ctx.NonTrivial()
	}
	if err := sameInput(toGoMap(v), q.GetMap()); err != nil {
		return fmt.Errorf("GetMap: %v", err)
	}
	keys := q.GetKeys()
	seen := map[string]bool{}
	for _, k := range keys {
		if _, ok := q[k]; !ok || seen[k] {
			return fmt.Errorf("GetKeys gives %q, which is not a key or was given before", k)
		}
		seen[k] = true
	}
	if len(seen) != len(v.L) {
		return fmt.Errorf("GetKeys gives %d of %d keys", len(seen), len(v.L))
	}
	var rows connection.NeoRows
	for _, r := range c.Rows {
		x, _ := toGo(r.Expand()).([]interface{})
		rows = append(rows, x)
	}
	got := rows.Get2DSlice()
	if len(got) != len(c.Rows) {
		return fmt.Errorf("Get2DSlice gives %d rows of %d", len(got), len(c.Rows))
	}
	for i, r := range c.Rows {
		if err := sameInput(toGo(r.Expand()), interface{}(got[i])); err != nil {
			return fmt.Errorf("Get2DSlice, row %d: %v", i, err)
		}
	}
	return nil
}

func init() {
	prop.Add(prop.Part{Prop: "C26", Name: "success",
		Rule:  "success messages in either encoding with the time until the result was available present, absent, of another type or in a wider form; non-trivial: present",
		Quick: 20000, Thorough: 300000}, genAfter, runAfter)
	prop.Add(prop.Part{Prop: "C26", Name: "views",
		Rule:  "parameters and rows seen through their helpers; non-trivial: several parameters",
		Quick: 16000, Thorough: 60000},
		func(t *rapid.T) viewCase {
			c := viewCase{Params: ps.GenMap(t, ps.GenOpts{Depth: 2})}
			for i := rapid.IntRange(0, 3).Draw(t, "rows"); i > 0; i-- {
				c.Rows = append(c.Rows, ps.GenList(t, ps.GenOpts{Depth: 2}))
			}
			return c
		}, runView)
	prop.Add(prop.Part{Prop: "C26", Name: "counters",
		Rule:  "summaries with statistics and counters present, absent or of another type, through queries and executions inside and outside transactions, all versions; non-trivial: at least one counter present",
		Quick: 40000, Thorough: 300000}, genCount, runCount)
	prop.Add(prop.Part{Prop: "C27", Name: "chains",
		Rule:  "errors of every kind wrapped up to 6 times with generated formats and arguments; non-trivial: several wrappings and a percent sign",
		Quick: 80000, Thorough: 2000000}, genChain, runChain)
	prop.Add(prop.Part{Prop: "C27", Name: "failures",
		Rule:  "failure metadata with code and message present, absent or of another type, directly and through a connection; non-trivial: code or message present",
		Quick: 12000, Thorough: 100000}, genFailMeta, runFailMeta)
}
