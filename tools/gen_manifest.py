#!/usr/bin/env python3
"""Writes MANIFEST.json; run from /verif."""
import json
T = {}
def c(i, technique, note): T[i] = (technique, note)
c("C01", "property-based round trip (rapid) with shrinking", "Random and boundary-seeded values of every encodable kind, both encodings, compared with the input bit for bit. Sampled, not exhaustive.")
c("C02", "differential property-based testing against an independent PackStream parser", "Encoder output parsed by a strict independent reader written from the PackStream description. Trusts that reader.")
c("C03", "differential property-based testing against an independent PackStream encoder", "Reference encoder emits every legal width of a generated value; decoder must return it. Trusts the reference encoder.")
c("C04", "property-based testing with generated chunkings and transport fragmentations", "Chunk sizes, peer chunkings and read splits generated; round trip and exact framing rules as oracle.")
c("C05", "structured mutation fuzzing of wire bytes with an independent verdict", "Random, mutated, truncated and size-inflated messages; the reference parser says which must be refused. Memory and stack limits bound each worker.")
c("C06", "property-based testing with unencodable values planted at generated places", "Unsupported kinds at generated depth; output must stay empty. One listed known finding (Go uint above the signed maximum).")
c("C07", "property-based testing against an independent calendar model, under eight process time zones", "Fields, instants and offsets computed independently of the code under test; times cluster around DST changes. Uses Go's time package as calendar and zone oracle.")
c("C08", "differential property-based testing of graph and spatial structures", "Generated structures in both directions against the reference codec.")
c("C09", "property-based testing against a strict independent server-side parser and request tables", "Constructors called directly with generated arguments and live connections of every version; every request is parsed and compared with a table written from the specification.")
c("C11", "stateful property-based testing against a scripted server (model of rows, summaries, requests)", "Generated histories of statements with generated result sets, chunkings and fragmentations on the loopback network.")
c("C12", "stateful property-based testing with generated server failures", "Failures injected at every kind of request; server state machine judges the recovery. Two failures within one recovery only as a refused RESET.")
c("C13", "stateful fault-injection property-based testing", "Disconnects and resets at generated bytes, malformed replies, stalls; everything after must fail. One fault per history.")
c("C14", "model-based stateful property-based testing of transactions", "Committed effects on the scripted server compared with a model of the history.")
c("C15", "model-based stateful property-based testing", "Histories naming databases on all versions, wire-level oracle.")
c("C16", "stateful property-based testing with server-side and process-level socket accounting", "Close in generated states, with faults in the closing exchange; collector off so that forgotten sockets show.")
c("C10", "stateful property-based testing of generated handshake and authentication scripts", "Server scripts with faults at generated bytes; connection or error, socket accounting at server and process.")
c("C12", "stateful property-based testing with generated server failures", "Failures injected at every kind of request, including the opening one; server state machine judges the recovery. Two failures within one recovery only as a refused RESET.")
c("C17", "property-based testing with generated stall points and drip-feeding servers", "Real time with wide margins: a stall must end within timeout + 8 s, slowness at a quarter of a timeout of 1 s, or pauses of up to 3 s under one of 5 s; the default of 60 s is waited for. TLS handshakes are only stalled, not dripped.")
c("C18", "concurrent property-based testing with identity-carrying answers under the race detector", "Schedules are those the Go scheduler produces under generated delays, chunkings and worker mixes; not exhaustive.")
c("C26", "property-based testing of generated summaries through live connections", "All four accessors, statistics and raw metadata against the script. Float counters are not generated.")
c("C27", "property-based testing of generated error chains and failures", "Chains with generated formats and arguments; failures through live connections.")
c("C28", "property-based testing with captured process output", "Standard output and error are redirected during generated workloads; the loggers' outputs are compared with the calls made. Which messages the driver itself emits at a level is only checked to be non-empty.")
c("C19", "model-based stateful property-based testing of pool histories with generated deaths, refusals and failed rollbacks", "A model of loans, idle connections and places; the scripted server counts connections and transactions. One borrower at a time; waiting opens are probed with a 3 ms pause.")
c("C20", "concurrent property-based testing under the race detector with identity-carrying answers", "Schedules are those the Go scheduler produces under generated delays and worker mixes; not exhaustive. Hangs are judged after 20-30 s.")
c("C24", "property-based testing of generated configurations against scripted servers that check credentials, offered versions and chunk sizes", "Loopback addresses only (IPv4, IPv6, localhost); sampled over options, their order, and 38 planted mistakes.")
c("C25", "property-based testing against TLS servers with generated combinations of certificates, authorities, client certificates and settings", "Certificates are made by crypto/x509; chains up to one intermediate; TLS 1.0-1.2. The authorities of the system are replaced through SSL_CERT_FILE.")
c("C21", "stateful property-based testing of routing-pool histories against a reference model and identity-carrying servers", "Clusters of scripted servers on loopback; histories of up to 26 operations. A second return of a connection that is meanwhile on loan again cannot be told from the borrower's own return and is not generated.")
c("C22", "property-based testing of generated topology sequences under short refresh intervals, judged by what the servers see", "Refresh intervals of 1-6 ms through the routing package (the client's own interval is 2 min); up to 7 topologies of up to 5 members.")
c("C23", "concurrent property-based testing of routing pools on changing clusters under the race detector with identity-carrying answers", "Schedules are those the Go scheduler produces under generated delays, refresh intervals of 0.3-3 ms and worker mixes; not exhaustive. Hangs are judged after 20-30 s.")
c("C29", "metamorphic property-based testing: everything handed in or out is overwritten and the rest compared; concurrent separate users under the race detector", "Generated values and statement histories with kept answers; schedules are those the Go scheduler produces.")
c("C30", "stateful fault-injection property-based testing of what errors report", "Histories with generated failures, refusals, disconnects, resets and stalls; the innermost cause of every error compared with what the script did. Replies that make no sense are only required to give an error.")
#MORE
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the harness drives the public packages only. See DESIGN.md."}
for i in ids:
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                            "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is still being built; property-based testing applies"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
