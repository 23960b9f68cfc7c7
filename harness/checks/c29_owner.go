package checks

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/structures/graph"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// vandalise overwrites everything that can be reached from a value.
func vandalise(x interface{}) {
	switch v := x.(type) {
	case []interface{}:
		for i := range v {
			vandalise(v[i])
			v[i] = "vandalised"
		}
		_ = append(v, "vandalised")
	case [][]interface{}:
		for i := range v {
			vandalise(v[i])
			v[i] = nil
		}
	case map[string]interface{}:
		if v == nil {
			return
		}
		for k, e := range v {
			vandalise(e)
			v[k] = "vandalised"
		}
		v["vandalised"] = "vandalised"
	case []byte:
		for i := range v {
			v[i] = 0xd7
		}
	case []string:
		for i := range v {
			v[i] = "vandalised"
		}
	case []int:
		for i := range v {
			v[i] = -7
		}
	case []int64:
		for i := range v {
			v[i] = -7
		}
	case graph.Node:
		vandalise(v.Labels)
		vandalise(v.Properties)
	case graph.Relationship:
		vandalise(v.Properties)
	case graph.UnboundRelationship:
		vandalise(v.Properties)
	case graph.Path:
		for i := range v.Nodes {
			vandalise(v.Nodes[i])
			v.Nodes[i] = graph.Node{}
		}
		for i := range v.Relationships {
			vandalise(v.Relationships[i])
			v.Relationships[i] = graph.UnboundRelationship{}
		}
		vandalise(v.Sequence)
	default:
		if r := reflect.ValueOf(x); r.Kind() == reflect.Slice {
			for i := 0; i < r.Len(); i++ {
				vandalise(r.Index(i).Interface())
				r.Index(i).Set(reflect.Zero(r.Type().Elem()))
			}
		}
	}
}

// sameInput compares a value with a freshly made one.
func sameInput(want, got interface{}) error {
	switch w := want.(type) {
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return fmt.Errorf("%T of other length or type", got)
		}
		for i := range w {
			if err := sameInput(w[i], g[i]); err != nil {
				return fmt.Errorf("[%d]: %w", i, err)
			}
		}
		return nil
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok || len(g) != len(w) {
			return fmt.Errorf("%T of other length or type", got)
		}
		for k := range w {
			e, ok := g[k]
			if !ok {
				return fmt.Errorf("without %q", k)
			}
			if err := sameInput(w[k], e); err != nil {
				return fmt.Errorf(".%q: %w", k, err)
			}
		}
		return nil
	case float64:
		if g, ok := got.(float64); ok && math.Float64bits(g) == math.Float64bits(w) {
			return nil
		}
	default:
		if reflect.DeepEqual(want, got) {
			return nil
		}
	}
	return fmt.Errorf("%v (%T) instead of %v (%T)", got, got, want, want)
}

type ownCase struct {
	Ver   int  `json:"ver"`
	Chunk int  `json:"chunk"`
	V     ps.V `json:"v"`
	W     ps.V `json:"w"`
}

// genOwned is a value that can be both encoded and decoded, graph entities among it.
func genOwned(t *rapid.T, depth int) ps.V {
	o := ps.GenOpts{Depth: 1}
	v := ps.GenV(t, ps.GenOpts{Depth: depth, GoTypes: true})
	switch rapid.IntRange(0, 4).Draw(t, "entity") {
	case 0:
		return ps.ListV(genNode(t, o), v, genNode(t, o))
	case 1:
		return ps.MapV("a", genPath(t, o), "b", v)
	case 2:
		return ps.ListV(v, genRel(t, o))
	}
	return v
}

func runOwned(ctx *prop.Ctx, c ownCase) error {
	cd := codecFor(c.Ver)
	v, w := c.V.Expand(), c.W.Expand()
	if v.K == ps.List && len(v.L) > 0 || v.K == ps.Map && len(v.L) > 0 {
		ctx.NonTrivial()
	}
	// encoding leaves the value alone, and what it gave is the caller's
	x := toGo(v)
	var kept bytes.Buffer
	enc := cd.enc(&kept, uint16(c.Chunk))
	for i := 0; i < 3; i++ {
		b, err := cd.marshal(x)
		if err != nil {
			return fmt.Errorf("encoding failed: %v", err)
		}
		if err := encoded(v, b); err != nil {
			return fmt.Errorf("encoding %d of the same value: %v", i+1, err)
		}
		if i != 1 {
			vandalise(b)
		}
		if err := enc.Encode(x); err != nil {
			return fmt.Errorf("encoding failed: %v", err)
		}
		d, err := cd.marshal(toGo(w))
		if err != nil {
			return fmt.Errorf("encoding failed: %v", err)
		}
		if i == 1 {
			if err := encoded(v, b); err != nil {
				return fmt.Errorf("encoded bytes changed when another value was encoded: %v", err)
			}
			vandalise(b)
			if err := encoded(w, d); err != nil {
				return fmt.Errorf("encoded bytes changed with those of another value: %v", err)
			}
		}
	}
	// a value changed after it was encoded
	vandalise(x)
	msgs, err := ps.Dechunk(kept.Bytes())
	if err != nil || len(msgs) != 3 {
		return fmt.Errorf("3 messages written, %d read (%v)", len(msgs), err)
	}
	for i, m := range msgs {
		got, err := ps.Parse(m.Body)
		if err != nil {
			return fmt.Errorf("message %d: %v", i+1, err)
		}
		if d := ps.Diff(v, got); d != "" {
			return fmt.Errorf("message %d changed after it was encoded: %s", i+1, d)
		}
	}
	// decoding leaves the bytes alone, and what it gave depends on nothing else
	wire := ps.Chunk(ps.Append(nil, v), []int{1 + c.Chunk})
	in := append([]byte{}, wire...)
	y, err := cd.unmarshal(in)
	if err != nil {
		return fmt.Errorf("decoding failed: %v", err)
	}
	if !bytes.Equal(in, wire) {
		return fmt.Errorf("decoding changed the bytes it was given")
	}
	vandalise(in)
	if err := same(v, y); err != nil {
		return fmt.Errorf("a decoded value changed with the bytes it was decoded from: %v", err)
	}
	dec := cd.dec(bytes.NewReader(append(append(append([]byte{}, wire...), ps.Chunk(ps.Append(nil, w), nil)...), wire...)))
	var got []interface{}
	for i := 0; i < 3; i++ {
		z, err := dec.Decode()
		if err != nil {
			return fmt.Errorf("decoding message %d failed: %v", i+1, err)
		}
		got = append(got, z)
	}
	vandalise(y)
	vandalise(got[0])
	if err := same(w, got[1]); err != nil {
		return fmt.Errorf("a decoded value changed when another one was changed: %v", err)
	}
	if err := same(v, got[2]); err != nil {
		return fmt.Errorf("a decoded value changed when an equal one was changed: %v", err)
	}
	z, err := cd.unmarshal(wire)
	if err != nil {
		return fmt.Errorf("decoding failed: %v", err)
	}
	if err := same(v, z); err != nil {
		return fmt.Errorf("a decoded value shows what was done to an equal one before: %v", err)
	}
	return nil
}

// ownHist is a history of statements whose parameters and answers are kept and changed.
type ownHist struct {
	Ver   int     `json:"ver"`
	Conns int     `json:"conns"`
	Ops   []ownOp `json:"ops"`
}

type ownOp struct {
	K      string `json:"k"` // query exec txquery txexec spoil respoil
	Conn   int    `json:"conn,omitempty"`
	P      int    `json:"p"` // parameter map used
	Rows   []int  `json:"rows,omitempty"`
	Stats  bool   `json:"stats,omitempty"`
	Spoil  int    `json:"spoil,omitempty"` // which answer is changed
	Params ps.V   `json:"params,omitempty"`
	Vals   ps.V   `json:"vals,omitempty"`
}

func genOwnHist(t *rapid.T) ownHist {
	h := ownHist{Ver: rapid.IntRange(1, 4).Draw(t, "ver"), Conns: rapid.IntRange(1, 3).Draw(t, "conns")}
	ks := []string{"query", "query", "query", "exec", "txquery", "txquery", "txexec", "spoil", "spoil", "spoilparams"}
	for i := rapid.IntRange(3, 12).Draw(t, "n"); i > 0; i-- {
		o := ownOp{K: rapid.SampledFrom(ks).Draw(t, "k"), Conn: rapid.IntRange(0, h.Conns-1).Draw(t, "conn"), P: rapid.IntRange(0, 3).Draw(t, "p")}
		switch {
		case strings.HasPrefix(o.K, "spoil"):
			o.Spoil = rapid.IntRange(0, 9).Draw(t, "spoil")
		default:
			o.Stats = rapid.Bool().Draw(t, "stats")
			o.Params = ps.GenMap(t, ps.GenOpts{Depth: 2})
			for j := rapid.IntRange(0, 3).Draw(t, "rows"); j > 0; j-- {
				o.Rows = append(o.Rows, rapid.IntRange(0, 2).Draw(t, "row"))
			}
			o.Vals = ps.ListV(genOwned(t, 1), genOwned(t, 2), ps.GenV(t, ps.GenOpts{Depth: 1}))
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

// kept is an answer the caller holds on to.
type keptAnswer struct {
	what    string
	rows    [][]interface{}
	want    []ps.V
	res     connection.IResult
	meta    ps.V
	spoiled bool
}

func (k *keptAnswer) check() error {
	if k.spoiled {
		return nil
	}
	if err := sameRows(k.want, k.rows); err != nil {
		return fmt.Errorf("the rows of %s: %v", k.what, err)
	}
	if err := sameVal(k.meta, k.res.Metadata()); err != nil {
		return fmt.Errorf("the summary of %s: %v", k.what, err)
	}
	return nil
}

func runOwnHist(ctx *prop.Ctx, h ownHist) error {
	var mu sync.Mutex
	replies := map[string]*ownReply{}
	received := map[string]ps.V{}
	handler := func(r *fb.Request) *fb.Reply {
		mu.Lock()
		defer mu.Unlock()
		switch r.Kind {
		case "run":
			received[r.Query] = r.Params
		case "pull":
			if a := replies[r.Query]; a != nil {
				rep := &fb.Reply{}
				for _, v := range a.rows {
					rep.Msgs = append(rep.Msgs, fb.Record(v))
				}
				rep.Msgs = append(rep.Msgs, fb.Success(a.meta))
				return rep
			}
		}
		return &fb.Reply{}
	}
	srv, err := start(ctx, fb.Config{Version: h.Ver, Handler: handler})
	if err != nil {
		return err
	}
	var conns []connection.IConnection
	for i := 0; i < h.Conns; i++ {
		conn, err := open(ctx, srv)
		if err != nil {
			return err
		}
		ctx.Cleanup(func() { srv.Close(); _ = conn.Close() })
		conns = append(conns, conn)
	}
	txs := make([]connection.ITransaction, h.Conns)
	// parameter maps are used again and again, as callers do
	params := map[int]connection.QueryParams{}
	source := map[int]ps.V{}
	var answers []*keptAnswer
	spoiled := 0
	for i, o := range h.Ops {
		id := fmt.Sprintf("statement %d", i)
		switch o.K {
		case "spoil":
			if len(answers) > 0 {
				a := answers[o.Spoil%len(answers)]
				a.spoiled = true
				spoiled++
				vandalise(a.rows)
				vandalise(a.res.Metadata())
			}
		case "spoilparams":
			if p, ok := params[o.P]; ok {
				vandalise(map[string]interface{}(p))
				delete(params, o.P)
				spoiled++
			}
		default:
			if _, ok := params[o.P]; !ok {
				params[o.P], source[o.P] = toGoMap(o.Params.Expand()), o.Params.Expand()
			}
			a := &keptAnswer{what: id, meta: ps.MapV("type", ps.StrV(id), "more", ps.ListV(ps.StrV(id), ps.MapV("x", ps.IntV(int64(i)))))}
			if o.Stats {
				a.meta.Keys = append(a.meta.Keys, []byte("stats"))
				a.meta.L = append(a.meta.L, ps.MapV("nodes-created", ps.IntV(int64(i))))
			}
			vals := o.Vals.Expand()
			for _, r := range o.Rows {
				a.want = append(a.want, ps.ListV(vals.L[r], ps.StrV(id), vals.L[r]))
			}
			mu.Lock()
			replies[id] = &ownReply{a.want, a.meta}
			mu.Unlock()
			k := o.K
			var q connection.IQuery = conns[o.Conn]
			if strings.HasPrefix(k, "tx") {
				k = k[2:]
				if txs[o.Conn] == nil {
					if txs[o.Conn], err = conns[o.Conn].Begin(); err != nil {
						return fmt.Errorf("begin: %s", oneLine(err))
					}
				}
				q = txs[o.Conn]
			} else if txs[o.Conn] != nil {
				if err := txs[o.Conn].Commit(); err != nil {
					return fmt.Errorf("commit: %s", oneLine(err))
				}
				txs[o.Conn] = nil
			}
			if k == "query" {
				a.rows, a.res, err = q.Query(id, params[o.P])
			} else {
				a.want = nil
				a.res, err = q.Exec(id, params[o.P])
			}
			if err != nil {
				return fmt.Errorf("%s failed: %s", id, oneLine(err))
			}
			if a.res == nil {
				return fmt.Errorf("%s gave no result", id)
			}
			answers = append(answers, a)
			mu.Lock()
			got := received[id]
			mu.Unlock()
			if d := ps.Diff(source[o.P], got); d != "" {
				return fmt.Errorf("%s: the server received other parameters than the caller's: %s", id, d)
			}
		}
		for _, a := range answers {
			if err := a.check(); err != nil {
				return fmt.Errorf("after %s %d: %v", o.K, i, err)
			}
		}
		for j, p := range params {
			if err := sameInput(toGoMap(source[j]), map[string]interface{}(p)); err != nil {
				return fmt.Errorf("after %s %d: the caller's parameters: %v", o.K, i, err)
			}
		}
	}
	if spoiled > 0 && len(answers) > 1 {
		ctx.NonTrivial()
	}
	return nil
}

type ownReply struct {
	rows []ps.V
	meta ps.V
}

// apart is a set of goroutines each with its own connection, encoders and decoders.
type apart struct {
	Workers [][]apartOp `json:"workers"`
	Params  ps.V        `json:"params"` // shared by all of them
	Late    int         `json:"late,omitempty"`
}

type apartOp struct {
	K   string `json:"k"` // query exec marshal unmarshal stream
	Ver int    `json:"ver"`
	Max int    `json:"max,omitempty"`
	V   ps.V   `json:"v"`
}

func genApart(t *rapid.T) apart {
	a := apart{Params: ps.GenMap(t, ps.GenOpts{Depth: 2}), Late: rapid.SampledFrom([]int{0, 0, 50, 300}).Draw(t, "late")}
	for i := rapid.IntRange(2, 6).Draw(t, "workers"); i > 0; i-- {
		a.Workers = append(a.Workers, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) apartOp {
			return apartOp{K: rapid.SampledFrom([]string{"query", "query", "exec", "tx", "marshal", "unmarshal", "stream", "stream"}).Draw(t, "k"),
				Ver: rapid.IntRange(1, 2).Draw(t, "ver"), Max: rapid.IntRange(0, 300).Draw(t, "max"), V: genOwned(t, 2)}
		}), 1, 6).Draw(t, "ops"))
	}
	return a
}

func runApart(ctx *prop.Ctx, a apart) error {
	shared := a.Params.Expand()
	given := connection.QueryParams(toGoMap(shared))
	var mu sync.Mutex
	answers := map[string]ps.V{}
	received := map[string]ps.V{}
	handler := func(r *fb.Request) *fb.Reply {
		rep := &fb.Reply{Delay: time.Duration(a.Late) * time.Microsecond}
		mu.Lock()
		defer mu.Unlock()
		if r.Kind == "run" {
			received[r.Query] = r.Params
		}
		if v, ok := answers[r.Query]; ok && r.Kind == "pull" {
			rep.Msgs = []ps.V{fb.Record(ps.ListV(v, ps.StrV(r.Query))), fb.Success(ps.MapV("type", ps.StrV(r.Query)))}
		}
		return rep
	}
	var srvs []*fb.Server
	for v := 1; v <= 4; v++ {
		srv, err := start(ctx, fb.Config{Version: v, Handler: handler})
		if err != nil {
			return err
		}
		srvs = append(srvs, srv)
	}
	ops := 0
	errs := make(chan error, len(a.Workers))
	var wg sync.WaitGroup
	for w := range a.Workers {
		ops += len(a.Workers[w])
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs <- prop.Guard(func() error {
				conn, err := connection.CreateBoltConn(connStr(srvs[w%4].Addr, "neo4j", "pw", nil))
				if err != nil {
					return fmt.Errorf("worker %d cannot connect: %s", w, oneLine(err))
				}
				defer conn.Close()
				for i, o := range a.Workers[w] {
					id := fmt.Sprintf("worker %d op %d", w, i)
					v := o.V.Expand()
					cd := codecFor(o.Ver)
					switch o.K {
					case "marshal":
						b, err := cd.marshal(toGo(v))
						if err == nil {
							err = encoded(v, b)
						}
						if err != nil {
							return fmt.Errorf("%s: %v", id, err)
						}
					case "unmarshal":
						y, err := cd.unmarshal(ps.Chunk(ps.Append(nil, v), nil))
						if err == nil {
							err = same(v, y)
						}
						if err != nil {
							return fmt.Errorf("%s: %v", id, err)
						}
					case "stream":
						var buf bytes.Buffer
						enc, dec := cd.enc(&buf, uint16(o.Max+1)), cd.dec(&buf)
						for k := 0; k < 3; k++ {
							if err := enc.Encode(toGo(v)); err != nil {
								return fmt.Errorf("%s: %v", id, err)
							}
							y, err := dec.Decode()
							if err == nil {
								err = same(v, y)
							}
							if err != nil {
								return fmt.Errorf("%s: %v", id, err)
							}
						}
					default:
						mu.Lock()
						answers[id] = v
						mu.Unlock()
						var q connection.IQuery = conn
						var tx connection.ITransaction
						if o.K == "tx" {
							if tx, err = conn.Begin(); err != nil {
								return fmt.Errorf("%s: %s", id, oneLine(err))
							}
							q = tx
						}
						want := []ps.V{ps.ListV(v, ps.StrV(id))}
						var rows [][]interface{}
						var res connection.IResult
						if o.K == "exec" {
							want = nil
							res, err = q.Exec(id, given)
						} else {
							rows, res, err = q.Query(id, given)
						}
						if err != nil {
							return fmt.Errorf("%s failed: %s", id, oneLine(err))
						}
						if err := sameRows(want, rows); err != nil {
							return fmt.Errorf("%s: %v", id, err)
						}
						if err := sameVal(ps.MapV("type", ps.StrV(id)), res.Metadata()); err != nil {
							return fmt.Errorf("%s, the summary: %v", id, err)
						}
						mu.Lock()
						got := received[id]
						mu.Unlock()
						if d := ps.Diff(shared, got); d != "" {
							return fmt.Errorf("%s: the server received other parameters: %s", id, d)
						}
						if tx != nil {
							if err := tx.Commit(); err != nil {
								return fmt.Errorf("%s: commit: %s", id, oneLine(err))
							}
						}
					}
				}
				return nil
			})
		}()
	}
	wg.Wait()
	close(errs)
	for err := range errs {
		if err != nil {
			return err
		}
	}
	if err := sameInput(toGoMap(shared), map[string]interface{}(given)); err != nil {
		return fmt.Errorf("the parameters all workers gave changed: %v", err)
	}
	if ops > len(a.Workers) {
		ctx.NonTrivial()
	}
	for _, s := range srvs {
		if v := s.Violations(); len(v) > 0 {
			return fmt.Errorf("protocol violated: %s", v[0])
		}
	}
	return nil
}

func init() {
	prop.Add(prop.Part{Prop: "C29", Name: "codec",
		Rule:  "a generated value, graph entities among it, encoded three times with others in between and decoded four times; everything handed in or out is overwritten in turn, and what is left must not change; non-trivial: a list or map that is not empty",
		Quick: 20000, Thorough: 400000},
		func(t *rapid.T) ownCase {
			return ownCase{Ver: rapid.IntRange(1, 2).Draw(t, "ver"), Chunk: rapid.SampledFrom(chunkSizes).Draw(t, "chunk"), V: genOwned(t, 3), W: genOwned(t, 2)}
		}, runOwned)
	prop.Add(prop.Part{Prop: "C29", Name: "connection",
		Rule:  "3-12 statements, in and out of transactions, on 1-3 connections with parameter maps used repeatedly; all rows and summaries are kept and compared after every step, some are overwritten, and so are parameter maps; non-trivial: something was overwritten and two answers are kept",
		Quick: 3000, Thorough: 60000},
		genOwnHist, runOwnHist)
	prop.Add(prop.Part{Prop: "C29", Name: "apart",
		Rule:  "2-6 goroutines, each with its own connection (versions 1 to 4), encoders and decoders, all giving the same parameter map, in the race-detector build; non-trivial: more operations than goroutines",
		Quick: 1500, Thorough: 40000, Race: true},
		genApart, runApart)
}
