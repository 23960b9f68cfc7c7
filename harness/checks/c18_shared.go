package checks

import (
	"fmt"
	"sync"
	"time"

	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/prop"
	"vharness/ps"
)

// shared is a set of goroutines using one connection.
type shared struct {
	Ver     int          `json:"ver"`
	Chunk   int          `json:"chunk,omitempty"`
	Chunks  []int        `json:"chunks,omitempty"`
	Frags   []int        `json:"frags,omitempty"`
	Workers [][]sharedOp `json:"workers"`
	Late    int          `json:"late,omitempty"`  // microseconds before an answer
	Break   int          `json:"break,omitempty"` // the connection breaks in the reply to this request
}

type sharedOp struct {
	K    string `json:"k"` // query exec validate
	Rows int    `json:"rows,omitempty"`
	Pad  int    `json:"pad,omitempty"` // size of the parameter
	Fail bool   `json:"fail,omitempty"`
	Wait int    `json:"wait,omitempty"` // microseconds before
}

// genRowCount: mostly few rows, sometimes a stream that lasts.
func genRowCount(t *rapid.T) int {
	if rapid.IntRange(0, 7).Draw(t, "long") == 0 {
		return rapid.SampledFrom([]int{16, 33, 64, 100, 129, 260, 600, 1100, 3000}).Draw(t, "rowsl")
	}
	return rapid.IntRange(0, 5).Draw(t, "rows")
}

func genShared(t *rapid.T) shared {
	s := shared{Ver: rapid.IntRange(1, 4).Draw(t, "ver"),
		Chunk:  rapid.SampledFrom([]int{0, 0, 1, 7, 100}).Draw(t, "chunk"),
		Chunks: genPattern(t, "chunks"), Frags: genPattern(t, "frags"),
		Late: rapid.SampledFrom([]int{0, 0, 50, 500}).Draw(t, "late")}
	n := rapid.IntRange(2, 6).Draw(t, "workers")
	for i := 0; i < n; i++ {
		ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sharedOp {
			return sharedOp{
				K:    rapid.SampledFrom([]string{"query", "query", "query", "exec", "exec", "validate"}).Draw(t, "k"),
				Rows: genRowCount(t),
				Pad:  rapid.SampledFrom([]int{0, 1, 20, 300, 5000}).Draw(t, "pad"),
				Fail: rapid.IntRange(0, 7).Draw(t, "fail") == 0,
				Wait: rapid.SampledFrom([]int{0, 0, 0, 20, 200}).Draw(t, "wait"),
			}
		}), 1, 6).Draw(t, "ops")
		s.Workers = append(s.Workers, ops)
	}
	if rapid.IntRange(0, 5).Draw(t, "breaks") == 0 {
		s.Break = rapid.IntRange(1, 20).Draw(t, "break")
	}
	return s
}

func runShared(ctx *prop.Ctx, s shared) error {
	var mu sync.Mutex
	asked := 0
	handler := func(r *fb.Request) *fb.Reply {
		rep := &fb.Reply{Delay: time.Duration(s.Late) * time.Microsecond}
		if r.Kind == "init" || r.Kind == "reset" {
			return rep
		}
		mu.Lock()
		asked++
		if s.Break > 0 && asked == s.Break {
			rep.Fault = &fb.Fault{Kind: "close", At: 3}
		}
		mu.Unlock()
		num := func(k string) int64 { v, _ := r.Params.Get(k); return v.I }
		if r.Kind == "run" && num("fail") == 1 {
			rep.Msgs = []ps.V{fb.Failure("Neo.Test", fmt.Sprintf("failed %s", r.Query))}
		}
		if r.Kind == "pull" {
			for i := int64(0); i < num("rows"); i++ {
				rep.Msgs = append(rep.Msgs, fb.Record(ps.ListV(ps.StrV(r.Query), ps.IntV(i))))
			}
			rep.Msgs = append(rep.Msgs, fb.Success(ps.MapV("stats", ps.MapV("nodes-created", ps.IntV(num("n"))))))
		}
		return rep
	}
	srv, err := start(ctx, fb.Config{Version: s.Ver, Chunks: s.Chunks, Frags: s.Frags, Handler: handler})
	if err != nil {
		return err
	}
	conn, err := open(ctx, srv)
	if err != nil {
		return err
	}
	ctx.Cleanup(func() { srv.Close(); _ = conn.Close() })
	if s.Chunk > 0 {
		conn.SetChunkSize(uint16(s.Chunk))
	}
	errs := make(chan error, len(s.Workers))
	var wg sync.WaitGroup
	total := 0
	for w, ops := range s.Workers {
		total += len(ops)
		w, ops := w, ops
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs <- prop.Guard(func() error {
				broken := false
				for i, o := range ops {
					if o.Wait > 0 {
						time.Sleep(time.Duration(o.Wait) * time.Microsecond)
					}
					id := fmt.Sprintf("worker %d op %d", w, i)
					n := int64(w*100 + i)
					params := map[string]interface{}{"rows": o.Rows, "n": n, "fail": 0, "pad": string(make([]byte, o.Pad))}
					if o.Fail {
						params["fail"] = 1
					}
					switch o.K {
					case "validate":
						if !conn.ValidateOpen() && s.Break == 0 {
							return fmt.Errorf("%s: the connection reports not open", id)
						}
					case "query", "exec":
						var rows [][]interface{}
						var res interface {
							GetNodesCreated() (int64, bool)
						}
						var err error
						if o.K == "query" {
							r2, r3, e := conn.Query(id, params)
							rows, err = r2, e
							if e == nil {
								res = r3
							}
						} else {
							r3, e := conn.Exec(id, params)
							err = e
							if e == nil {
								res = r3
							}
						}
						if err != nil {
							if o.Fail && s.Break == 0 {
								if e := isFailure(err, "Neo.Test", "failed "+id); e != nil {
									return fmt.Errorf("%s: %v", id, e)
								}
								continue
							}
							if s.Break > 0 {
								if f, ok := cause(err); ok && f.GetMessage() != "failed "+id {
									return fmt.Errorf("%s got the failure of another request: %s", id, oneLine(err))
								} else if !ok {
									broken = true
								}
								continue
							}
							return fmt.Errorf("%s failed: %s", id, oneLine(err))
						}
						if o.Fail {
							return fmt.Errorf("%s: success was reported instead of the server's failure", id)
						}
						if broken {
							return fmt.Errorf("%s succeeded after the connection broke", id)
						}
						if c, ok := res.GetNodesCreated(); !ok || c != n {
							return fmt.Errorf("%s got the summary of another request: nodes-created %d %v, its own is %d", id, c, ok, n)
						}
						if o.K == "query" {
							if len(rows) != o.Rows {
								return fmt.Errorf("%s: %d rows instead of %d", id, len(rows), o.Rows)
							}
							for j, r := range rows {
								if len(r) != 2 || r[0] != id || r[1] != int64(j) {
									return fmt.Errorf("%s: row %d is %v", id, j, r)
								}
							}
						}
					}
				}
				return nil
			})
		}()
	}
	done, bad := prop.Within(patience, func() error { wg.Wait(); return nil })
	if bad != nil {
		return bad
	}
	if !done {
		return fmt.Errorf("goroutines sharing a connection are still blocked\n%s", goBoltStacks())
	}
	for range s.Workers {
		if e := <-errs; e != nil {
			return e
		}
	}
	if v := srv.Violations(); len(v) > 0 {
		return fmt.Errorf("protocol violation: %s", v[0])
	}
	// whole exchanges, one after the other
	statements := 0
	last := ""
	for _, e := range srv.Log() {
		switch e.Kind {
		case "run":
			statements++
			last = e.Query
		case "pull":
			if e.Query != last && !e.Failed {
				return fmt.Errorf("a pull for %q followed the run of %q", e.Query, last)
			}
		}
	}
	want := 0
	for _, ops := range s.Workers {
		for _, o := range ops {
			if o.K != "validate" {
				want++
			}
		}
	}
	if s.Break == 0 && statements != want {
		return fmt.Errorf("the server saw %d statements, %d were made", statements, want)
	}
	return nil
}

func init() {
	prop.Add(prop.Part{Prop: "C18", Name: "shared",
		Rule:  "2-6 goroutines with 1-6 queries, executions and liveness checks each on one connection, in the race-detector build, with generated chunk sizes, fragmentation, delays, server failures and sometimes a disconnect; every answer carries its request's identity; non-trivial: at least two goroutines make statements",
		Quick: 2400, Thorough: 60000, Race: true},
		genShared, func(ctx *prop.Ctx, s shared) error {
			n := 0
			for _, ops := range s.Workers {
				for _, o := range ops {
					if o.K != "validate" {
						n++
						break
					}
				}
			}
			if n > 1 {
				ctx.NonTrivial()
			}
			return runShared(ctx, s)
		})
}
