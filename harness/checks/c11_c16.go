package checks

import (
	"vharness/prop"
)

// mark classifies a history for the evidence.
func histRun(nontrivial func(hist) bool) func(*prop.Ctx, hist) error {
	return func(ctx *prop.Ctx, h hist) error {
		if nontrivial(h) {
			ctx.NonTrivial()
		}
		return runHist(ctx, h)
	}
}

func countOps(h hist, f func(op) bool) int {
	n := 0
	for _, o := range h.Ops {
		if f(o) {
			n++
		}
	}
	return n
}

func isStmt(o op) bool {
	return o.K == "query" || o.K == "exec" || o.K == "txquery" || o.K == "txexec"
}

func init() {
	prop.Add(prop.Part{Prop: "C11", Name: "results",
		Rule:  "2-8 queries and executions (autocommit and in transactions) on one connection with generated rows, summaries, parameters, client chunk sizes, server chunkings and fragmentation; non-trivial: at least one row was returned and two statements ran",
		Quick: 1800, Thorough: 60000},
		genHist(flavour{MinOps: 2, MaxOps: 8, Tx: 15, BigRows: true, Rich: true, Shape: true}),
		histRun(func(h hist) bool {
			return countOps(h, isStmt) > 1 && countOps(h, func(o op) bool { return len(o.Rows) > 0 }) > 0
		}))

	prop.Add(prop.Part{Prop: "C12", Name: "failures",
		Rule:  "4-14 operations of which 40% are failed by the server at a generated request; non-trivial: a failure followed by another operation",
		Quick: 16000, Thorough: 200000},
		genHist(flavour{MinOps: 4, MaxOps: 14, Tx: 40, Fail: 40, Odd: 5, Shape: true}),
		histRun(func(h hist) bool { return countOps(h, func(o op) bool { return o.Fail != "" }) > 0 }))

	prop.Add(prop.Part{Prop: "C13", Name: "broken",
		Rule:  "2-8 operations, in one of which the transport breaks (disconnect or reset at a generated byte of a reply, malformed or out-of-place reply, server gone while idle, failed reset), the server answering anything asked later; non-trivial: the fault was not in the last operation",
		Quick: 16000, Thorough: 200000},
		genHist(flavour{MinOps: 2, MaxOps: 8, Tx: 35, Fail: 15, Faults: 100, Odd: 8}),
		histRun(func(h hist) bool { return len(h.Ops) > 1 && h.Ops[len(h.Ops)-1].Fault == nil }))

	prop.Add(prop.Part{Prop: "C13", Name: "stalled",
		Rule:  "as broken, but some faults are stalls inside a reply: the call times out, the server then sends the rest and answers anything asked later; non-trivial: the history stalls",
		Quick: 500, Thorough: 16000},
		genHist(flavour{MinOps: 2, MaxOps: 6, Tx: 35, Fail: 15, Faults: 100, Stall: true}),
		histRun(func(h hist) bool {
			return countOps(h, func(o op) bool { return o.Fault != nil && o.Fault.Kind == "stall" }) > 0
		}))

	prop.Add(prop.Part{Prop: "C14", Name: "transactions",
		Rule:  "5-20 operations, mostly about transactions, some out of place (statements, commit, rollback on ended transactions; begin in a transaction), failed by the server, or cut off by a fault; committed effects compared with the model; non-trivial: at least one begin and one end",
		Quick: 18000, Thorough: 200000},
		genHist(flavour{MinOps: 5, MaxOps: 20, Tx: 60, Fail: 8, Faults: 10, Odd: 20, DB: 5}),
		histRun(func(h hist) bool {
			return countOps(h, func(o op) bool { return o.K == "begin" }) > 0 && countOps(h, func(o op) bool { return o.K == "commit" || o.K == "rollback" || o.K == "idle" }) > 0
		}))

	prop.Add(prop.Part{Prop: "C15", Name: "databases",
		Rule:  "3-12 operations, 60% naming a database (possibly empty), all versions; non-trivial: a non-empty name",
		Quick: 20000, Thorough: 200000},
		genHist(flavour{MinOps: 3, MaxOps: 12, Tx: 40, DB: 60, Fail: 3, Odd: 5, Versions: []int{1, 2, 3, 4, 4, 4}}),
		histRun(func(h hist) bool { return countOps(h, func(o op) bool { return o.DB != "" }) > 0 }))

	prop.Add(prop.Part{Prop: "C16", Name: "close",
		Rule:  "1-8 operations with a close at a generated place: idle, in a transaction, after failures, with the rollback failed or cut off, after the server went away; then more operations; sockets of the process counted with the collector off; non-trivial: the close is not in the idle state",
		Quick: 18000, Thorough: 200000},
		genHist(flavour{MinOps: 1, MaxOps: 8, Tx: 50, Fail: 20, Faults: 40, Close: 90, Odd: 5}),
		histRun(func(h hist) bool {
			return countOps(h, func(o op) bool {
				return o.K == "close" && (o.Fail != "" || o.Fault != nil || o.HangUp != "") || o.K == "begin"
			}) > 0
		}))

	prop.Add(prop.Part{Prop: "C06", Name: "connection",
		Rule:  "3-10 operations on a connection of which 40% of the statements carry a parameter with something unencodable inside: refused, nothing reaches the server, everything else works; non-trivial: such a statement with something after it",
		Quick: 3000, Thorough: 60000},
		genHist(flavour{MinOps: 3, MaxOps: 10, Tx: 40, Bad: 40, Shape: true}),
		histRun(func(h hist) bool { return countOps(h, func(o op) bool { return o.Bad }) > 0 }))

	prop.Add(prop.Part{Prop: "C09", Name: "wire",
		Rule:  "3-12 operations on connections of all versions; the server's strict parser checks signature, fields and metadata of every request in its state; non-trivial: statements and transactions",
		Quick: 6000, Thorough: 60000},
		genHist(flavour{MinOps: 3, MaxOps: 12, Tx: 45, DB: 30, Fail: 10, Rich: true, Shape: true}),
		histRun(func(h hist) bool {
			return countOps(h, isStmt) > 0 && countOps(h, func(o op) bool { return o.K == "begin" }) > 0
		}))
}
