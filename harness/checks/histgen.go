package checks

import (
	"fmt"

	"pgregory.net/rapid"

	"vharness/fb"
	"vharness/ps"
)

// flavour steers the generation of histories.
type flavour struct {
	MinOps, MaxOps int
	Tx             int // percent of operations about transactions
	Fail           int // percent of requests the server fails
	Faults         int // percent of histories with a transport fault
	Bad            int // percent of statements with an unsendable parameter
	DB             int // percent of operations naming a database
	Odd            int // percent of operations out of place
	Close          int // percent of histories with a close in the middle
	BigRows        bool
	Rich           bool // rich values in rows and parameters
	Stall          bool // faults may be stalls
	Versions       []int
	Shape          bool // generated chunking and fragmentation
	Cause          bool // judge what the errors say
}

var plainQueries = []string{"RETURN 1", "MATCH (n) RETURN n", "CREATE (n:A {x: $x})", "", "begin", "COMMIT ", "Match\n(é) return '100%'", "ROLLBACK;"}

func genQuery(t *rapid.T, big bool) string {
	if rapid.IntRange(0, 3).Draw(t, "qk") == 0 {
		return string(ps.GenStr(t, "qs", big).Expand().S)
	}
	return rapid.SampledFrom(plainQueries).Draw(t, "q")
}

func okQuery(q string) bool { return q != "BEGIN" && q != "COMMIT" && q != "ROLLBACK" }

func genParams(t *rapid.T, rich bool) ps.V {
	if rich {
		return ps.GenMap(t, ps.GenOpts{Depth: 3, GoTypes: true})
	}
	switch rapid.IntRange(0, 2).Draw(t, "pk") {
	case 0:
		return ps.V{K: ps.Map}
	case 1:
		return ps.MapV("x", ps.IntV(int64(rapid.IntRange(0, 1000).Draw(t, "x"))))
	}
	return ps.GenMap(t, ps.GenOpts{Depth: 1, GoTypes: true})
}

func genRows(t *rapid.T, f flavour, ver int) []ps.V {
	n := rapid.IntRange(0, 4).Draw(t, "rows")
	many := 0
	if f.BigRows && rapid.IntRange(0, 5).Draw(t, "many") == 0 {
		many = rapid.SampledFrom([]int{15, 16, 100, 255, 256, 1000, 3000}).Draw(t, "nrows")
		n = 3
	}
	cols := rapid.IntRange(0, 4).Draw(t, "cols")
	var out []ps.V
	for i := 0; i < n; i++ {
		row := ps.V{K: ps.List, L: []ps.V{}}
		for j := 0; j < cols; j++ {
			o := ps.GenOpts{Depth: 1}
			if f.Rich {
				o = ps.GenOpts{Depth: 2, Wide: many <= 16, Big: many == 0 && rapid.IntRange(0, 9).Draw(t, "bigval") == 0, Structs: genGraph}
				if ver > 1 {
					o.Structs = genWireExact
				}
			}
			row.L = append(row.L, ps.GenV(t, o))
		}
		out = append(out, row)
	}
	if many > 0 {
		var more []ps.V
		for i := 0; i < many; i++ {
			r := out[i%len(out)]
			more = append(more, ps.V{K: ps.List, L: append([]ps.V{ps.IntV(int64(i))}, r.L...)})
		}
		out = more
	}
	return out
}

// genWireExact draws structures whose decoded form is compared exactly.
func genWireExact(t *rapid.T, o ps.GenOpts) ps.V {
	if rapid.IntRange(0, 2).Draw(t, "pt") == 0 {
		return genPoint(t, o)
	}
	return genGraph(t, o)
}

func genSummary(t *rapid.T, rich bool) ps.V {
	if rapid.IntRange(0, 2).Draw(t, "sumk") == 0 {
		return ps.V{K: ps.Map}
	}
	m := ps.MapV("type", ps.StrV("rw"), "t_last", ps.IntV(3))
	if rapid.Bool().Draw(t, "stats") {
		m.Keys = append(m.Keys, []byte("stats"))
		m.L = append(m.L, ps.MapV("nodes-created", ps.IntV(int64(rapid.IntRange(0, 300).Draw(t, "nc")))))
	}
	if rich {
		m.Keys = append(m.Keys, []byte("profile"))
		m.L = append(m.L, ps.GenV(t, ps.GenOpts{Depth: 2}))
	}
	return m
}

// badReplies are framed replies that are no legal answer to a request.
func badReply(t *rapid.T, on string) ([]byte, string) {
	frame := func(msgs ...ps.V) []byte {
		var b []byte
		for _, m := range msgs {
			b = append(b, ps.Chunk(ps.Encode(m), nil)...)
		}
		return b
	}
	raw := func(b ...byte) []byte { return ps.Chunk(b, nil) }
	type br struct {
		b    []byte
		note string
	}
	ok := fb.Success(fb.Empty())
	rec := fb.Record(ps.ListV(ps.IntV(42)))
	opts := []br{
		{frame(fb.Ignored()), "IGNORED without a failure"},
		{frame(ps.IntV(1), ok), "a bare integer"},
		{frame(ps.NilV(), ok), "a bare null"},
		{frame(ps.StrV("SUCCESS"), ok), "a bare string"},
		{frame(fb.Empty(), ok), "a bare map"},
		{frame(ps.ListV(ps.IntV(1)), ok), "a bare list"},
		{frame(ps.StructV('N', ps.IntV(1), ps.ListV(), fb.Empty()), ok), "a node"},
		{append(raw(0xb1, 0x70, 0xa1), frame(ok)...), "a truncated SUCCESS"},
		{append(raw(0xb1, 0x71, 0x92, 0x01), frame(ok)...), "a truncated RECORD"},
		{append(raw(0xc7), frame(ok)...), "an undefined marker"},
		{append(raw(0xb1, 0x70, 0xdf), frame(ok)...), "an undefined marker in SUCCESS"},
		{frame(ps.StructV(0x70, ps.ListV()), ok), "SUCCESS with a list"},
		{frame(ps.StructV(0x71, fb.Empty()), ok), "RECORD with a map"},
		{frame(ps.StructV(0x7f, ps.StrV("x")), ok), "FAILURE with a string"},
		{frame(ps.StructV(0x70), ok), "SUCCESS without fields"},
		{append(raw(0xb1, 0x70, 0xa1, 0x01, 0x02), frame(ok)...), "SUCCESS whose map has an integer key"},
		{append(raw(0xb1), frame(ok)...), "a structure without signature"},
	}
	if on == "pull" {
		opts = append(opts,
			br{append(frame(rec), raw(0xb1, 0x71, 0xc8, 0x01)...), "a truncated RECORD after a good one"},
			br{append(frame(rec, fb.Ignored()), frame(ok)...), "IGNORED among records"},
			br{append(frame(rec, ps.StructV(0x71, ps.StrV("x"))), frame(ok)...), "RECORD with a string"})
	} else {
		opts = append(opts, br{frame(rec, ok), "a RECORD"})
	}
	if on == "reset" {
		opts = opts[1:] // replies to what came before a RESET are IGNORED: the driver may go on waiting
	}
	o := opts[rapid.IntRange(0, len(opts)-1).Draw(t, "badreply")]
	return o.b, o.note
}

func genFault(t *rapid.T, f flavour, on []string) *fault {
	kinds := []string{"close", "close", "rst", "bad", "bad"}
	if f.Stall {
		kinds = append(kinds, "stall", "stall", "stall", "stall", "stall", "stall", "stall")
	}
	x := &fault{On: rapid.SampledFrom(on).Draw(t, "on"), Kind: rapid.SampledFrom(kinds).Draw(t, "fkind")}
	switch x.Kind {
	case "bad":
		x.Reply, x.Note = badReply(t, x.On)
	default:
		switch rapid.IntRange(0, 3).Draw(t, "atk") {
		case 0:
			x.At = rapid.IntRange(0, 8).Draw(t, "at")
		case 1:
			x.At, x.Rel = 1000, true
		default:
			x.At, x.Rel = rapid.IntRange(0, 999).Draw(t, "at"), true
		}
	}
	return x
}

func genHist(f flavour) func(*rapid.T) hist {
	return func(t *rapid.T) hist {
		pct := func(n int, l string) bool { return n > 0 && rapid.IntRange(0, 99).Draw(t, l) < n }
		vs := f.Versions
		if vs == nil {
			vs = []int{1, 2, 3, 4}
		}
		h := hist{Ver: rapid.SampledFrom(vs).Draw(t, "ver"), Close: rapid.IntRange(0, 3).Draw(t, "properend") > 0}
		h.TLS = rapid.IntRange(0, 9).Draw(t, "tls") == 0
		h.Cause = f.Cause
		if f.Shape {
			h.Chunk = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 16, 100, 1000, 65535}).Draw(t, "chunk")
			h.Chunks, h.Frags = genPattern(t, "chunks"), genPattern(t, "frags")
		}
		n := rapid.IntRange(f.MinOps, f.MaxOps).Draw(t, "nops")
		faultAt := -1
		if pct(f.Faults, "faulty") {
			faultAt = rapid.IntRange(0, n-1).Draw(t, "faultat")
		}
		closeAt := -1
		if pct(f.Close, "closes") {
			closeAt = rapid.IntRange(0, n-1).Draw(t, "closeat")
		}
		inTx, had := false, false
		for i := 0; i < n; i++ {
			o := op{P: ps.V{K: ps.Map}}
			odd := pct(f.Odd, "odd")
			switch {
			case i == closeAt:
				o.K = "close"
			case odd:
				o.K = rapid.SampledFrom([]string{"query", "exec", "txquery", "txexec", "begin", "commit", "rollback", "validate", "idle"}).Draw(t, "k")
			case inTx:
				o.K = rapid.SampledFrom([]string{"txquery", "txexec", "txquery", "txexec", "commit", "rollback", "validate"}).Draw(t, "k")
				if rapid.IntRange(0, 15).Draw(t, "idle") == 0 {
					o.K = "idle"
				}
			case pct(f.Tx, "tx"):
				o.K = "begin"
			default:
				o.K = rapid.SampledFrom([]string{"query", "query", "query", "exec", "exec", "validate"}).Draw(t, "k")
			}
			var on []string
			v12 := h.Ver <= 2
			fails := []string{}
			switch o.K {
			case "query", "exec", "txquery", "txexec":
				o.Q = genQuery(t, f.Rich && rapid.IntRange(0, 9).Draw(t, "bigq") == 0)
				if !okQuery(o.Q) {
					o.Q += " "
				}
				o.P = genParams(t, f.Rich)
				if len(o.P.L) == 0 && o.P.N == 0 {
					o.NilP = rapid.Bool().Draw(t, "nilp")
				}
				if pct(f.Bad, "bad") {
					o.Bad = true
					o.BadV = genBad(t)
				}
				o.Rows = genRows(t, f, h.Ver)
				if o.K == "exec" || o.K == "txexec" {
					if rapid.Bool().Draw(t, "norows") {
						o.Rows = nil
					}
				}
				o.RunM = ps.MapV("fields", ps.ListV(ps.StrV("a")), "t_first", ps.IntV(1))
				o.Sum = genSummary(t, f.Rich)
				fails = []string{"run", "pull"}
				on = []string{"run", "pull", "pull"}
			case "begin", "commit", "rollback":
				fails = []string{o.K}
				on = []string{o.K}
				if v12 {
					on = append(on, o.K+"-pull")
					fails = append(fails, o.K+"-pull")
				}
			case "idle":
				fails, on = []string{"rollback"}, []string{"rollback"}
				if v12 {
					fails, on = append(fails, "rollback-pull"), append(on, "rollback-pull")
				}
			case "close":
				if inTx {
					fails, on = []string{"rollback"}, []string{"rollback"}
					if v12 {
						fails, on = append(fails, "rollback-pull"), append(on, "rollback-pull")
					}
				}
			}
			if (o.K == "query" || o.K == "exec" || o.K == "txquery" || o.K == "txexec" || o.K == "begin") && pct(f.DB, "db") {
				o.HasDB = true
				o.DB = rapid.SampledFrom([]string{"", "neo4j", "other", "a-b.c"}).Draw(t, "dbname")
			}
			if len(fails) > 0 && pct(f.Fail, "fail") {
				o.Fail = rapid.SampledFrom(fails).Draw(t, "failkind")
				o.Code, o.Msg = genCode(t)
				if f.Cause {
					o.FMore = ps.GenMap(t, ps.GenOpts{Depth: 2})
				}
				o.FailAt = rapid.IntRange(0, 3).Draw(t, "failat")
				on = append(on, "reset")
			}
			if i == faultAt && len(on) > 0 {
				switch rapid.IntRange(0, 4).Draw(t, "faultkind") {
				case 0:
					o.HangUp = rapid.SampledFrom([]string{"close", "rst", "word"}).Draw(t, "hangup")
				case 1:
					if o.Fail != "" && o.Fault == nil {
						o.RFail = true
						break
					}
					fallthrough
				default:
					o.Fault = genFault(t, f, on)
					if o.Fault.On+"-pull" == o.Fail {
						o.Fail = "" // both answers are read before the first is judged, and the RESET after a failure mends the rest
					}
				}
			} else if i == faultAt {
				o.HangUp = rapid.SampledFrom([]string{"close", "rst", "word"}).Draw(t, "hangup")
			}
			h.Ops = append(h.Ops, o)
			switch {
			case o.K == "begin" && o.Fail == "":
				inTx, had = true, true
			case o.K == "commit" || o.K == "rollback" || o.K == "idle" || (o.Fail != "" && inTx):
				inTx = false
			}
		}
		_ = had
		return h
	}
}

func describe(h hist) string { return fmt.Sprintf("v%d, %d operations", h.Ver, len(h.Ops)) }
