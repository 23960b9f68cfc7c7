package checks

import (
	"fmt"
	"sync"
	"time"

	"github.com/mindstand/go-bolt/connection"
	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// sharedTx is a history of transactions on one connection, each of them
// begun, used and ended by several goroutines.
type sharedTx struct {
	Ver    int       `json:"ver"`
	Chunk  int       `json:"chunk,omitempty"`
	Chunks []int     `json:"chunks,omitempty"`
	Frags  []int     `json:"frags,omitempty"`
	Late   int       `json:"late,omitempty"`
	Break  int       `json:"break,omitempty"`
	Rounds []txRound `json:"rounds"`
}

type txRound struct {
	Begins  int      `json:"begins"` // goroutines that begin
	Workers [][]txOp `json:"workers"`
	Ends    []string `json:"ends"` // commit, rollback, each by a goroutine
}

type txOp struct {
	K    string `json:"k"` // query exec validate closed commit rollback begin
	Rows int    `json:"rows,omitempty"`
	Fail bool   `json:"fail,omitempty"`
	Wait int    `json:"wait,omitempty"`
}

func genSharedTx(t *rapid.T) sharedTx {
	s := sharedTx{Ver: rapid.IntRange(1, 4).Draw(t, "ver"),
		Chunk:  rapid.SampledFrom([]int{0, 0, 1, 7, 100}).Draw(t, "chunk"),
		Chunks: genPattern(t, "chunks"), Frags: genPattern(t, "frags"),
		Late: rapid.SampledFrom([]int{0, 50, 500}).Draw(t, "late")}
	n := rapid.IntRange(1, 3).Draw(t, "rounds")
	for i := 0; i < n; i++ {
		calm := rapid.Bool().Draw(t, "calm") // nothing ends it before its time
		kinds := []string{"query", "query", "exec", "exec", "validate", "closed"}
		if !calm {
			kinds = append(kinds, rapid.SampledFrom([]string{"commit", "rollback"}).Draw(t, "endkind"))
		}
		r := txRound{Begins: rapid.IntRange(1, 3).Draw(t, "begins"),
			Ends: rapid.SliceOfN(rapid.SampledFrom([]string{"commit", "rollback"}), 1, 3).Draw(t, "ends")}
		for w := rapid.IntRange(1, 4).Draw(t, "workers"); w > 0; w-- {
			r.Workers = append(r.Workers, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) txOp {
				return txOp{K: rapid.SampledFrom(kinds).Draw(t, "k"),
					Rows: rapid.IntRange(0, 4).Draw(t, "rows"),
					Fail: !calm && rapid.IntRange(0, 4).Draw(t, "fail") == 0,
					Wait: rapid.SampledFrom([]int{0, 0, 0, 20, 200}).Draw(t, "wait")}
			}), 1, 5).Draw(t, "ops"))
		}
		s.Rounds = append(s.Rounds, r)
	}
	if rapid.IntRange(0, 6).Draw(t, "breaks") == 0 {
		s.Break = rapid.IntRange(1, 25).Draw(t, "break")
	}
	return s
}

// inTurn runs the functions at once and waits for them.
func atOnce(what string, fs ...func() error) error {
	errs := make([]error, len(fs))
	var wg sync.WaitGroup
	for i, f := range fs {
		i, f := i, f
		wg.Add(1)
		go func() { defer wg.Done(); errs[i] = prop.Guard(f) }()
	}
	done, bad := prop.Within(patience, func() error { wg.Wait(); return nil })
	if bad != nil {
		return bad
	}
	if !done {
		return fmt.Errorf("%s: goroutines sharing a connection are still blocked\n%s", what, goBoltStacks())
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func runSharedTx(ctx *prop.Ctx, s sharedTx) error {
	var mu sync.Mutex
	asked := 0
	handler := func(r *fb.Request) *fb.Reply {
		rep := &fb.Reply{Delay: time.Duration(s.Late) * time.Microsecond}
		if r.Kind == "init" || r.Kind == "reset" {
			return rep
		}
		mu.Lock()
		asked++
		if s.Break > 0 && asked == s.Break {
			rep.Fault = &fb.Fault{Kind: "close", At: 3}
		}
		mu.Unlock()
		num := func(k string) int64 { v, _ := r.Params.Get(k); return v.I }
		if r.Kind == "run" && num("fail") == 1 {
			rep.Msgs = []ps.V{fb.Failure("Neo.Test", fmt.Sprintf("failed %s", r.Query))}
		}
		if r.Kind == "pull" && num("n") > 0 {
			for i := int64(0); i < num("rows"); i++ {
				rep.Msgs = append(rep.Msgs, fb.Record(ps.ListV(ps.StrV(r.Query), ps.IntV(i))))
			}
			rep.Msgs = append(rep.Msgs, fb.Success(ps.MapV("stats", ps.MapV("nodes-created", ps.IntV(num("n"))))))
		}
		return rep
	}
	srv, err := start(ctx, fb.Config{Version: s.Ver, Chunks: s.Chunks, Frags: s.Frags, Handler: handler})
	if err != nil {
		return err
	}
	conn, err := open(ctx, srv)
	if err != nil {
		return err
	}
	ctx.Cleanup(func() { srv.Close(); _ = conn.Close() })
	if s.Chunk > 0 {
		conn.SetChunkSize(uint16(s.Chunk))
	}
	for i, r := range s.Rounds {
		if err := txTogether(s, i, r, srv, conn); err != nil {
			return fmt.Errorf("transaction %d: %v", i, err)
		}
		if v := srv.Violations(); len(v) > 0 {
			return fmt.Errorf("protocol violation in transaction %d: %s", i, v[0])
		}
	}
	if s.Break == 0 && !conn.ValidateOpen() {
		return fmt.Errorf("the connection reports not open at the end")
	}
	return nil
}

func txTogether(s sharedTx, i int, r txRound, srv *fb.Server, conn connection.IConnection) error {
	var mu sync.Mutex
	var tx connection.ITransaction
	begun := 0
	from := srv.Mark()
	var fs []func() error
	for k := 0; k < r.Begins; k++ {
		fs = append(fs, func() error {
			t, err := conn.Begin()
			mu.Lock()
			defer mu.Unlock()
			if err == nil {
				begun++
				tx = t
			}
			return nil
		})
	}
	if err := atOnce("beginning", fs...); err != nil {
		return err
	}
	if begun == 0 && s.Break > 0 {
		return nil
	}
	if begun != 1 {
		return fmt.Errorf("%d of %d goroutines have begun a transaction", begun, r.Begins)
	}
	// what came of the statements
	fate := map[string]string{}
	ended, endedOK := false, ""
	for _, ops := range r.Workers {
		for _, o := range ops {
			ended = ended || o.K == "commit" || o.K == "rollback" || o.Fail && (o.K == "query" || o.K == "exec")
		}
	}
	end := func(k string) error {
		err := map[string]func() error{"commit": tx.Commit, "rollback": tx.Rollback}[k]()
		mu.Lock()
		defer mu.Unlock()
		if err == nil {
			if endedOK != "" {
				return fmt.Errorf("%s succeeded after %s", k, endedOK)
			}
			endedOK = k
		}
		return nil
	}
	fs = nil
	for w, ops := range r.Workers {
		w, ops := w, ops
		fs = append(fs, func() error {
			for j, o := range ops {
				if o.Wait > 0 {
					time.Sleep(time.Duration(o.Wait) * time.Microsecond)
				}
				id := fmt.Sprintf("tx %d worker %d op %d", i, w, j)
				n := int64(1 + w*100 + j)
				params := map[string]interface{}{"rows": o.Rows, "n": n, "fail": 0}
				if o.Fail {
					params["fail"] = 1
				}
				var rows [][]interface{}
				var res connection.IResult
				var err error
				switch o.K {
				case "validate":
					if !conn.ValidateOpen() && s.Break == 0 {
						return fmt.Errorf("%s: the connection reports not open", id)
					}
					continue
				case "closed":
					if tx.IsClosed() && s.Break == 0 && !ended {
						return fmt.Errorf("%s: the transaction reports it has ended", id)
					}
					continue
				case "commit", "rollback":
					if err := end(o.K); err != nil {
						return fmt.Errorf("%s: %v", id, err)
					}
					continue
				case "query":
					rows, res, err = tx.Query(id, params)
				case "exec":
					res, err = tx.Exec(id, params)
				}
				what := "done"
				if err != nil {
					what = "refused"
					if f, ok := cause(err); ok {
						what = "failed"
						if !o.Fail || f.GetMessage() != "failed "+id {
							return fmt.Errorf("%s got the failure of another request: %s", id, oneLine(err))
						}
					} else if s.Break == 0 && !ended {
						return fmt.Errorf("%s failed: %s", id, oneLine(err))
					}
				} else {
					if o.Fail {
						return fmt.Errorf("%s: success was reported instead of the server's failure", id)
					}
					if c, ok := res.GetNodesCreated(); !ok || c != n {
						return fmt.Errorf("%s got the summary of another request: nodes-created %d %v, its own is %d", id, c, ok, n)
					}
					if o.K == "query" {
						if len(rows) != o.Rows {
							return fmt.Errorf("%s: %d rows instead of %d", id, len(rows), o.Rows)
						}
						for k, row := range rows {
							if len(row) != 2 || row[0] != id || row[1] != int64(k) {
								return fmt.Errorf("%s: row %d is %v", id, k, row)
							}
						}
					}
				}
				mu.Lock()
				fate[id] = what
				mu.Unlock()
			}
			return nil
		})
	}
	if err := atOnce("sharing", fs...); err != nil {
		return err
	}
	if s.Break == 0 && !ended && tx.IsClosed() {
		return fmt.Errorf("it reports it has ended before anything ended it")
	}
	fs = nil
	for _, k := range r.Ends {
		k := k
		fs = append(fs, func() error { return end(k) })
	}
	if err := atOnce("ending", fs...); err != nil {
		return err
	}
	if !tx.IsClosed() {
		return fmt.Errorf("it does not report that it has ended")
	}
	if s.Break == 0 && !ended && endedOK == "" {
		return fmt.Errorf("none of %q succeeded", r.Ends)
	}
	if _, err := tx.Exec("too late", nil); err == nil {
		return fmt.Errorf("a statement succeeded after its end")
	}
	// what the server saw
	ends, endsOK := 0, ""
	saw := map[string]int{}
	for _, e := range srv.Log()[from:] {
		switch e.Kind {
		case "begin":
		case "run":
			saw[e.Query]++
			if !e.InTx {
				return fmt.Errorf("%q ran outside the transaction", e.Query)
			}
			if s.Break == 0 && fate[e.Query] == "refused" {
				return fmt.Errorf("%q was refused, and ran", e.Query)
			}
		case "commit", "rollback":
			ends++
			endsOK = e.Kind
		}
	}
	for id, what := range fate {
		if n := saw[id]; what != "refused" && n != 1 {
			return fmt.Errorf("%q was %s, and ran %d times", id, what, n)
		}
	}
	if ends > 1 {
		return fmt.Errorf("the server was told %d times to end it", ends)
	}
	if endedOK != "" && endsOK != endedOK {
		return fmt.Errorf("%s succeeded, the server was told to %s", endedOK, endsOK)
	}
	return nil
}

func init() {
	prop.Add(prop.Part{Prop: "C18", Name: "transactions",
		Rule:  "1-3 transactions on one connection, each begun by 1-3 goroutines at once, used by 1-4 of them (queries, executions, some of which the server fails, liveness checks, sometimes commit or rollback in the middle) and ended by 1-3 at once, in the race-detector build: one begin and one end count, every answer belongs to its request, no statement runs outside the transaction, what was refused did not run; non-trivial: at least two goroutines use the transaction",
		Quick: 2400, Thorough: 60000, Race: true},
		genSharedTx, func(ctx *prop.Ctx, s sharedTx) error {
			for _, r := range s.Rounds {
				if len(r.Workers) > 1 {
					ctx.NonTrivial()
				}
			}
			return runSharedTx(ctx, s)
		})
}
