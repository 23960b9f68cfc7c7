package checks

import (
	"fmt"
	"sync"

	"github.com/mindstand/go-bolt/connection"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// large is a few queries with very many rows, or rows of many columns.
type large struct {
	Ver    int        `json:"ver"`
	Chunks []int      `json:"chunks,omitempty"`
	Frags  []int      `json:"frags,omitempty"`
	Q      []largeOne `json:"q"`
}

type largeOne struct {
	Rows int    `json:"rows"`
	Cols int    `json:"cols"`
	Tx   bool   `json:"tx,omitempty"`
	Exec bool   `json:"exec,omitempty"`
	Same bool   `json:"same,omitempty"` // all rows equal
	Fail bool   `json:"fail,omitempty"` // the stream ends in a failure
	Text string `json:"text,omitempty"`
}

func genLarge(t *rapid.T) large {
	l := large{Ver: rapid.IntRange(1, 4).Draw(t, "ver")}
	l.Chunks = rapid.SampledFrom([][]int{nil, nil, {9000}, {65535}, {3, 1000}}).Draw(t, "chunks")
	l.Frags = rapid.SampledFrom([][]int{nil, nil, {4096}, {65536, 1}, {1000}}).Draw(t, "frags")
	n := rapid.IntRange(1, 3).Draw(t, "queries")
	for i := 0; i < n; i++ {
		q := largeOne{Cols: rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "cols"), Tx: rapid.IntRange(0, 3).Draw(t, "tx") == 0,
			Exec: rapid.IntRange(0, 4).Draw(t, "exec") == 0, Same: rapid.IntRange(0, 4).Draw(t, "same") == 0, Fail: rapid.IntRange(0, 5).Draw(t, "fail") == 0,
			Text: rapid.SampledFrom([]string{"", "r", "row ", "a longer text in every row, of more than thirty-two bytes "}).Draw(t, "text")}
		switch rapid.IntRange(0, 5).Draw(t, "nk") {
		case 0, 1:
			q.Rows = rapid.SampledFrom([]int{256, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 50000, 65536, 100000, 131072}).Draw(t, "base") + rapid.IntRange(-2, 2).Draw(t, "d")
		case 2, 3:
			q.Rows = rapid.IntRange(0, 20000).Draw(t, "rows")
		case 4:
			q.Rows = rapid.IntRange(0, 80000).Draw(t, "rows")
		default: // wide rows instead
			q.Rows = rapid.IntRange(1, 5).Draw(t, "rows")
			q.Cols = rapid.SampledFrom([]int{16, 100, 255, 256, 1000, 32768, 65535, 65536, 70000}).Draw(t, "wide")
		}
		l.Q = append(l.Q, q)
	}
	return l
}

func (q largeOne) row(i int) ps.V {
	if q.Same {
		i = 7
	}
	r := ps.V{K: ps.List, L: make([]ps.V, q.Cols)}
	for c := range r.L {
		switch {
		case c%2 == 1 || q.Cols == 1 && q.Text != "":
			r.L[c] = ps.StrV(fmt.Sprintf("%s%d/%d", q.Text, i, c))
		default:
			r.L[c] = ps.IntV(int64(i)*1000003 + int64(c))
		}
	}
	return r
}

func runLarge(ctx *prop.Ctx, l large) error {
	var mu sync.Mutex
	cur := -1
	handler := func(r *fb.Request) *fb.Reply {
		mu.Lock()
		defer mu.Unlock()
		if cur < 0 {
			return nil
		}
		q := l.Q[cur]
		rep := &fb.Reply{}
		if r.Kind == "pull" && r.Query != "" {
			for i := 0; i < q.Rows; i++ {
				rep.Msgs = append(rep.Msgs, fb.Record(q.row(i)))
			}
			if q.Fail {
				rep.Msgs = append(rep.Msgs, fb.Failure("Neo.Late", "late"))
			} else {
				rep.Msgs = append(rep.Msgs, fb.Success(ps.MapV("stats", ps.MapV("nodes-created", ps.IntV(int64(cur))))))
			}
		}
		return rep
	}
	srv, err := start(ctx, fb.Config{Version: l.Ver, Chunks: l.Chunks, Frags: l.Frags, Handler: handler})
	if err != nil {
		return err
	}
	conn, err := open(ctx, srv)
	if err != nil {
		return err
	}
	ctx.Cleanup(func() { srv.Close(); _ = conn.Close() })
	set := func(i int) { mu.Lock(); cur = i; mu.Unlock() }
	type ret struct {
		q    largeOne
		rows [][]interface{}
	}
	var rets []ret
	check := func(q largeOne, rows [][]interface{}) error {
		if len(rows) != q.Rows {
			return fmt.Errorf("%d rows returned, the server sent %d", len(rows), q.Rows)
		}
		for i, r := range rows {
			if err := sameVal(q.row(i), r); err != nil {
				return fmt.Errorf("row %d of %d: %v", i, q.Rows, err)
			}
		}
		return nil
	}
	for i, q := range l.Q {
		set(-1)
		var c connection.IQuery = conn
		var end func() error
		if q.Tx {
			tx, err := conn.Begin()
			if err != nil {
				return fmt.Errorf("begin: %s", oneLine(err))
			}
			c, end = tx, tx.Commit
		}
		set(i)
		var rows [][]interface{}
		var res interface{ GetNodesCreated() (int64, bool) }
		if q.Exec {
			r, e := c.Exec("RETURN 1", nil)
			if err = e; e == nil {
				res = r
			}
		} else {
			rs, r, e := c.Query("RETURN 1", nil)
			if err, rows = e, rs; e == nil {
				res = r
			}
		}
		set(-1)
		if q.Fail {
			if e := isFailure(err, "Neo.Late", "late"); e != nil {
				return fmt.Errorf("query %d (failing after %d rows): %v", i, q.Rows, e)
			}
			if rows != nil {
				return fmt.Errorf("query %d failed, but returned %d rows", i, len(rows))
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("query %d with %d rows failed: %s", i, q.Rows, oneLine(err))
		}
		if n, ok := res.GetNodesCreated(); !ok || n != int64(i) {
			return fmt.Errorf("query %d: summary says %d %v", i, n, ok)
		}
		if !q.Exec {
			if err := check(q, rows); err != nil {
				return fmt.Errorf("query %d: %v", i, err)
			}
			rets = append(rets, ret{q, rows})
		}
		if end != nil {
			if err := end(); err != nil {
				return fmt.Errorf("commit: %s", oneLine(err))
			}
		}
	}
	for _, r := range rets {
		if err := check(r.q, r.rows); err != nil {
			return fmt.Errorf("an earlier result changed after it was returned: %v", err)
		}
	}
	if v := srv.Violations(); len(v) > 0 {
		return fmt.Errorf("protocol violation: %s", v[0])
	}
	return nil
}

func init() {
	prop.Add(prop.Part{Prop: "C11", Name: "large",
		Rule:  "1-3 queries or executions on one connection with up to 131000 rows, or rows of up to 70000 columns, in and out of transactions, some failing at the end of the stream; all rows and summaries compared, and the rows of earlier results once more at the end; non-trivial: more than 1000 rows or columns",
		Quick: 120, Thorough: 4000},
		genLarge, func(ctx *prop.Ctx, l large) error {
			for _, q := range l.Q {
				if q.Rows > 1000 || q.Cols > 1000 {
					ctx.NonTrivial()
				}
				switch {
				case q.Rows > 65536:
					ctx.Label("rows>65536")
				case q.Rows > 8192:
					ctx.Label("rows>8192")
				case q.Rows > 1000:
					ctx.Label("rows>1000")
				}
			}
			return runLarge(ctx, l)
		})
}
