#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source because JSON lines are hard to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ENC = ["encoding/encoding_v1/encoderV1.go", "encoding/encoding_v2/encoderV2.go"]
DEC = ["encoding/encoding_v1/decoderV1.go", "encoding/encoding_v2/decoderV2.go"]
CONN = ["connection/connection.go"]

p("C01", "A value survives encoding and decoding unchanged",
  "For every value built from null, booleans, Go integers that fit a signed 64-bit integer, floats, strings of any bytes, lists (also typed Go slices) and string-keyed maps (a nil slice or map being an empty one), nested in any ordinary way, encoding it and decoding the bytes with the same encoding version gives back the same value: integers as 64-bit, floats bit for bit, slices as generic lists. "
  "This holds across every size boundary of strings, lists and maps (15/16, 127/128, 255/256, 32767/32768, 65535/65536 and beyond) and of integers, for both encoding versions.",
  ["inputs"], "all values of the supported types, of any size and nesting, in encoding versions 1 and 2",
  "The encoder/decoder tests compare about forty fixed values; sizes above 127 bytes or elements, and combinations, are never decoded.",
  ENC + DEC, [("type switch and size-class selection of the encoder", "encoding/encoding_v2/encoderV2.go:encode, encodeInt, encodeString, encodeSlice, encodeMap"),
              ("marker dispatch of the decoder", "encoding/encoding_v2/decoderV2.go:decode, decodeSlice, decodeMap")],
  ["encoding_v1.Marshal/Unmarshal", "encoding_v2.Marshal/Unmarshal"])

p("C02", "Encoder output is legal PackStream denoting exactly the given value",
  "Every value or protocol message the encoder emits is a legal chunked PackStream message that an independent decoder reads as exactly what was passed in: correct markers, unsigned big-endian sizes, element order, structure signature, number and order of fields. "
  "Nothing precedes it and nothing follows its single end marker.",
  ["inputs"], "all encodable values and structures (including structures with many fields), both encoding versions",
  "A round trip through the driver's own decoder cannot see an error made the same way on both sides, and the tests list only fixed byte strings for small values.",
  ENC, [("marker/size emission", "encoding/encoding_v2/encoderV2.go:encode*"), ("structure header", "encoding/encoding_v2/encoderV2.go:encodeStructure")],
  ["bytes returned by Marshal / written by NewEncoder().Encode"])

p("C03", "Decoder reads every legal encoding as the value it denotes",
  "Every legal PackStream encoding of a value, including integers, sizes and structures written in a wider form than necessary, decodes to exactly the value it denotes, wherever it is nested; a map key sent more than once has its last value. "
  "Response messages (success, record, failure, ignored) decode to their kind with exactly the metadata or fields that were sent.",
  ["inputs"], "all legal byte encodings of all values and response messages, both encoding versions",
  "Tests decode only what the driver's own encoder produces (minimal forms of small values); servers may send any legal form and sizes with the high bit set.",
  DEC, [("marker dispatch", "encoding/encoding_v2/decoderV2.go:decode"), ("message structures", "encoding/encoding_v2/decoderV2.go:decodeStruct")],
  ["encoding_v1.Unmarshal", "encoding_v2.Unmarshal"])

p("C04", "Message framing is transparent to chunk sizes and transport splits",
  "Whatever chunk size is configured, a sent message of any length is cut only into non-empty chunks no longer than that size whose declared lengths match their contents, ended by one zero-length chunk, and reassembles to the unchunked message. "
  "A received message is reassembled identically however the peer chose its chunks and however the transport split the bytes, and consecutive messages on one stream never bleed into each other.",
  ["inputs", "schedules"], "all message lengths (0 to several times 65535), chunk sizes, chunkings by the peer, read fragmentations and message sequences",
  "Tests use two chunk sizes with short messages and an in-memory reader that always returns everything at once.",
  ENC + DEC, [("chunk writer", "encoding/encoding_v2/encoderV2.go:Write, flush"), ("chunk reader", "encoding/encoding_v2/decoderV2.go:read, readData")],
  ["io.Writer/io.Reader given to NewEncoder/NewDecoder"])

p("C05", "Malformed input is an error, never a crash or an invented value",
  "For any byte sequence whatsoever, decoding terminates with a value or an error: it never panics, never exhausts the stack on deep nesting and never allocates memory out of proportion to the input. "
  "A message that is truncated at any point, whose declared sizes exceed its content, whose map keys are not strings, or whose structure fields have the wrong number or types is reported as an error, never as a shortened, zero-filled or otherwise invented value.",
  ["inputs"], "all byte sequences: random, truncated and mutated legal encodings, hostile sizes and nesting, wrongly typed structures",
  "The tests contain almost no malformed input; the space of corruptions is unbounded.",
  DEC + ["encoding/util.go"], [("size and type checks", "encoding/encoding_v2/decoderV2.go:decode, decodeSlice, decodeMap, decodeNode, decodePath"), ("slice conversions", "encoding/util.go")],
  ["encoding_v1.Unmarshal", "encoding_v2.Unmarshal", "process exit status and memory"])

p("C06", "Values that cannot be encoded are refused as a whole",
  "A value that contains, at any depth, something the wire format cannot carry (an unsupported Go type, an unsigned integer above the signed 64-bit maximum, a map that is not string-keyed) is refused with an error, never silently altered, and nothing of the message is written to the stream. "
  "A connection or transaction that was given such a parameter sends nothing for it and keeps working.",
  ["inputs", "histories"], "all positions of an unencodable part in values of any size, any chunk size, in any request on a connection",
  "The single existing test passes one top-level unsupported value; partial emission needs a large message and a late failure.",
  ENC + CONN, [("unsupported type error", "encoding/encoding_v2/encoderV2.go:encode default case"), ("unsigned overflow check", "encoding/encoding_v2/encoderV2.go:encode"), ("buffering before the stream", "encoding/encoding_v2/encoderV2.go:Write, flush")],
  ["error of Encode", "bytes seen by the server"])

p("C07", "Temporal values keep their calendar fields, instant and offset",
  "Dates, times of day with offset, local times, local date-times, zoned date-times (by offset or by zone name) and durations are encoded in the form the protocol defines and decoded from it with the same calendar fields, nanoseconds, instant and UTC offset, whatever the time zone of the process and including moments around daylight-saving changes, before 1970 and far in past or future. "
  "A duration made of days, seconds and nanoseconds decodes to their exact sum, and encoding any duration and decoding it gives the same duration; one that does not fit is an error.",
  ["inputs", "configurations"], "all temporal values in range, all zone offsets and zone names, several process time zones",
  "The only tests of temporal values need a live database and use one fixed value each in the test machine's zone.",
  ["encoding/encoding_v2/encoderV2.go", "encoding/encoding_v2/decoderV2.go"],
  [("temporal encoders", "encoding/encoding_v2/encoderV2.go:encodeDate, encodeClock, encodeLocalClock, encodeLocalTime, encodeTime, encodeDuration"),
   ("temporal decoders", "encoding/encoding_v2/decoderV2.go:decodeDate, decodeTime, decodeLocalTime, decodeLocalDateTime, decodeDateTimeWithZoneOffset, decodeTimeWithZoneId, decodeDuration")],
  ["encoding_v2.Marshal/Unmarshal under several TZ settings"])

p("C08", "Graph and spatial values keep every field in both directions",
  "Nodes, relationships, unbound relationships and paths (both encoding versions) and two- and three-dimensional points (version 2) decode with every field exactly as the server sent it: identities, labels in order, type, start and end, properties, path sequence, reference system and coordinates. "
  "Any such value, as received, can be encoded again and denotes the same structure.",
  ["inputs"], "all field values, counts, nesting of structures inside lists, maps, records and paths",
  "One fixed node, relationship and path are tested in their minimal form, points not at all.",
  DEC + ["structures/graph", "structures/types/point.go", "encoding/util.go"],
  [("structure decoders", "encoding/encoding_v2/decoderV2.go:decodeNode, decodeRelationship, decodePath, decodeUnboundRelationship, decodePoint2D, decodePoint3D"), ("structure field order", "structures/graph/*.go:AllFields, structures/types/point.go:AllFields")],
  ["Unmarshal", "Marshal"])

p("C09", "Each protocol version's requests have exactly the prescribed form",
  "For each protocol version 1 to 4, the initial, run, pull, discard, begin, commit, rollback, reset and goodbye requests have exactly the signature, fields and metadata entries which that version prescribes, and nothing else. "
  "The authentication token carries scheme, principal, credentials and a realm only when one is given; query text, parameters, transaction timeout, transaction metadata and database name arrive unchanged when given and are absent otherwise; read access is announced exactly when read access is requested.",
  ["inputs", "configurations"], "all protocol versions, request kinds, users, passwords, realms, queries, parameters, databases, access modes, timeouts and metadata",
  "No test compares any request with the protocol definition.",
  ["protocol", "structures/messages"],
  [("per-version message selection", "protocol/protocol_v*/bolt.go"), ("transaction metadata", "structures/messages/builder.go"), ("auth token", "structures/messages/init.go")],
  ["IBoltProtocol methods and Marshal", "bytes seen by the server"])

p("C10", "Opening either yields a working connection or fails without residue",
  "Opening a connection offers versions 4, 3, 2, 1 in the standard handshake, accepts the server's choice however the reply is split in transit, authenticates with the given user and password and yields a connection that speaks exactly the chosen version. "
  "If the server chooses no or an unknown version, refuses the authentication, answers anything but success, or disconnects at any byte, opening returns an error (never a connection) and leaves no socket open.",
  ["inputs", "fault_sequences", "crash_points"], "all handshake answers, reply fragmentations, authentication outcomes and disconnect positions",
  "No test opens a connection without a live database, and a live database does not misbehave.",
  CONN + ["protocol/util.go", "connection/const.go"], [("handshake", "connection/connection.go:handshake"), ("protocol lookup", "protocol/util.go:GetProtocol"), ("initialisation", "connection/connection.go:initialize, sendInit")],
  ["connection.CreateBoltConn", "server side of the socket"])

p("C11", "A query returns exactly the server's records and summary",
  "A successful query returns exactly the records the server sent for it, all of them, in order and unmodified, together with the metadata of the final summary, for any number and shape of records, any protocol version, any server chunking and any sequence of queries and executions on one connection. "
  "The server receives exactly the query text and parameters that were passed.",
  ["inputs", "histories"], "all record sets, summaries, query texts, parameters, protocol versions and request sequences",
  "Tests that run queries need a live database and look at single values.",
  CONN + ["connection/transaction.go"], [("request/response loop", "connection/connection.go:runQuery, consume")],
  ["Query, Exec and their results", "requests seen by the server"])

p("C12", "A server failure is reported faithfully and the connection recovers",
  "When the server reports a failure to any request (first reply, middle of a result, begin, statement, commit or rollback), the call returns an error whose innermost cause exposes the server's code and message. "
  "The driver then brings the connection back with exactly what the protocol requires, so that the next requests get their own, correct answers; a transaction in which a failure occurred is over, with none of its effects committed, and a new one can be started.",
  ["histories", "fault_sequences"], "all failure positions in all request sequences, failure metadata, protocol versions",
  "Needs a server that fails at chosen points; only one integration test runs one failing query.",
  CONN + ["connection/transaction.go", "structures/messages/responses.go", "errors/errors.go"], [("failure handling", "connection/connection.go:consume, reset"), ("error wrapping", "errors/errors.go:Wrap, InnerMost")],
  ["errors of Query/Exec/Begin/Commit/Rollback", "requests seen by the server"])

p("C13", "After the transport breaks, no stale or invented answer is ever returned",
  "Once a request on a connection has ended because of a disconnect, an I/O error, a timeout, or a malformed or out-of-place reply, no later request on it reports success or rows: every one returns an error, and answers belonging to an earlier request are never delivered to a later one. "
  "Rows are never returned from a result the server did not complete, and the connection reports itself as not open, with no transaction left open on it, also when the server closes it while idle. All of this holds on encrypted connections too.",
  ["fault_sequences", "crash_points", "histories"], "all break kinds at all byte and message positions, followed by any further requests",
  "Needs a server that disconnects, stalls or sends garbage at chosen points, which no test has.",
  CONN, [("I/O wrapper", "connection/connection.go:readWrite.Read, readWrite.Write"), ("closed flag", "connection/connection.go:runQuery, BeginWithDatabase"), ("liveness probe", "connection/connection.go:ValidateOpen")],
  ["results of requests after the break", "ValidateOpen"])

p("C14", "Transactions are all-or-nothing and end exactly once",
  "The effects the server commits are exactly the statements of transactions whose commit reported success, in order, plus autocommit statements; statements of a rolled-back, failed or abandoned transaction never take effect. "
  "Between begin and commit or rollback every statement given to the transaction is sent inside it; afterwards the transaction reports closed, and statements, commit and rollback on it return errors and send nothing. "
  "A connection has at most one open transaction, and can start another as soon as the previous one has ended.",
  ["histories"], "all sequences of begin, statement, commit, rollback, make-idle, close and autocommit operations with server failures, in all protocol versions",
  "The transaction tests need a live database and follow one scenario; the guarantee is about every history.",
  ["connection/transaction.go"] + CONN, [("commit and rollback", "connection/transaction.go:Commit, Rollback"), ("begin guard", "connection/connection.go:BeginWithDatabase"), ("make idle", "connection/connection.go:MakeIdle")],
  ["return values", "statements the server executed and committed"], [("open transaction", "the connection's current transaction, if any", "connection/connection.go:Connection.transaction"), ("closed", "transaction already ended", "connection/transaction.go:boltTransaction.closed")])

p("C15", "Database selection is honoured or refused, never dropped",
  "On a server version without multi-database support, naming a database in a query, execution, transaction statement or begin is refused with an error, nothing is sent and the connection stays usable. "
  "On a version with support, the name given to an autocommit statement or to begin reaches the server with that request, and an empty name adds none. In a transaction only the database it was begun on is accepted.",
  ["inputs", "configurations", "histories"], "all entry points, database names, protocol versions and connection states",
  "Requires servers of four versions and inspection of requests; no test does either.",
  CONN + ["connection/transaction.go", "structures/messages/builder.go"], [("guards", "connection/connection.go:ExecWithDb, QueryWithDb, BeginWithDatabase; connection/transaction.go:ExecWithDb, QueryWithDb"), ("metadata", "structures/messages/builder.go:BuildTxMetadataWithDatabase")],
  ["errors", "requests seen by the server"])

p("C16", "Closing a connection always releases it",
  "Closing a connection in any state (idle, inside a transaction, after a failed request, after the server has gone away) releases its network socket, and on a healthy connection first rolls back an open transaction and says goodbye where the version has that message. "
  "After closing, every operation and a second close return an error without network traffic, and the connection reports not open.",
  ["histories", "fault_sequences"], "all connection states and faults at the time of closing, all protocol versions",
  "No test closes a connection in an unusual state or looks at the socket from the server's side.",
  CONN, [("close", "connection/connection.go:Close"), ("goodbye", "protocol/protocol_v*/bolt.go:GetCloseMessage")],
  ["server side of the socket", "errors after close"])

p("C17", "The timeout bounds waiting and never cuts off a prompt server",
  "With an I/O timeout set, a server that stalls at any point (accepting, encryption or version handshake, authentication, before or inside any reply) makes the call return an error after about that time instead of blocking. "
  "A server that keeps answering within the timeout is never reported as timed out, however long the whole exchange takes or the connection was idle before. "
  "The timeout is the one set by the connection string or the client, on direct, pooled and routed connections alike, and 60 seconds when none is set.",
  ["fault_sequences", "schedules"], "all stall positions and requests, timeouts, idle periods and pacing of replies",
  "Needs a stalling or slow server.",
  CONN, [("deadlines", "connection/connection.go:readWrite.Read, readWrite.Write"), ("dial", "connection/connection.go:createConnection"), ("settings", "connection/connection.go:newConnectionFromConnectionString; client.go; pool.go; routing/pool.go")],
  ["duration and error of calls"])

p("C18", "A connection shared by goroutines keeps their requests apart",
  "When several goroutines run queries and executions on one connection, or begin, use and end one transaction on it, each gets the rows and summary of its own request, and the server sees whole request/response exchanges one after another, never interleaved. "
  "One begin and one end of a transaction succeed, and none of its statements runs outside it. "
  "There is no data race.",
  ["schedules", "histories"], "all interleavings of concurrent requests on a shared connection, with and without server failures",
  "Tests are single-threaded.",
  CONN, [("mutex around the exchange", "connection/connection.go:runQuery"), ("end of a transaction", "connection/transaction.go:Commit, Rollback, IsClosed")],
  ["results per goroutine", "request order seen by the server", "race detector"])

p("C19", "The driver pool lends healthy connections and stays within its size",
  "A pool of size n never holds more than n server connections, never lends a connection to two borrowers at once, lends only open, authenticated connections without a transaction in progress, and reuses healthy returned ones; a dead connection, found when borrowed or returned, is discarded and its place becomes usable again. "
  "Returning a connection rolls back its open transaction; returning one that is not on loan is refused and harms nobody. "
  "After the pool is closed, opening fails, idle connections are released at once and lent ones when they are returned.",
  ["histories", "fault_sequences"], "all sequences of open, use, server-side death, return, double return and close, for every pool size",
  "The pool test needs a live database and performs one scenario.",
  ["driver_pool.go", "connection_pool_factory.go"] + CONN, [("object factory", "connection_pool_factory.go:MakeObject, ActivateObject, ValidateObject, PassivateObject, DestroyObject"), ("pool wrapper", "driver_pool.go:open, reclaim, close")],
  ["IDriverPool.Open/Reclaim/Close", "connections seen by the server"])

p("C20", "The driver pool is safe and live under concurrency",
  "Under any interleaving of open, use, return and close by many goroutines there is no data race and no deadlock, loans stay exclusive and within the pool size, each borrower gets its own answers, and an open waiting for a free connection proceeds once one is returned. "
  "Closing the pool returns promptly even while callers are waiting, and waiters then get an error.",
  ["schedules", "histories"], "all interleavings of concurrent pool users",
  "The stress test needs a live database and asserts nothing about exclusivity.",
  ["driver_pool.go", "connection_pool_factory.go"], [("locking", "driver_pool.go:open, close, reclaim")],
  ["IDriverPool from many goroutines", "race detector", "connections seen by the server"])

p("C21", "The routing pool lends each role only the right servers' connections",
  "A write loan is always a connection to a current leader and a read loan one to a current follower or read replica; a pool of n connections is filled with the write half (the larger if n is odd) and the read half, spread over the servers of the role, and lends each connection to one borrower at a time. "
  "A returned connection has its transaction rolled back and serves its own role again; a dead one is replaced, an unknown one refused and closed. "
  "Stopping releases every connection and makes loans fail.",
  ["histories", "configurations", "fault_sequences"], "all cluster topologies, pool sizes and sequences of borrow, use, server-side death, return and stop",
  "No test runs the routing pool.",
  ["routing/pool.go", "routing/routing_handler.go", "routing/queue.go", "driver_routing_pool.go"], [("borrow and reclaim", "routing/pool.go:internalBorrow, Reclaim"), ("fill", "routing/pool.go:Start, addWriteConn, addReadConn"), ("stop", "routing/pool.go:Stop, removeConn"), ("topology", "routing/routing_handler.go:refreshClusterInfo")],
  ["IRoutingPool / IDriverPool", "connections seen by each cluster member"])

p("C22", "The routing pool follows the cluster's topology",
  "After a periodic refresh, idle connections to servers that left their role or the cluster are dropped, connections are made to the servers that now have the role, using the configured user, password and encryption, and the pool is filled again to its size. "
  "The overview of every supported server version is understood, members without a bolt address or in other roles are skipped, and a refresh that fails leaves the pool working with what it knew.",
  ["histories", "fault_sequences", "inputs"], "all sequences of topologies and overview answers, including failing refreshes",
  "No test runs the routing pool; a refresh happens every two minutes on a live cluster.",
  ["routing/pool.go", "routing/routing_handler.go", "client.go"], [("refresh", "routing/pool.go:refreshConnections, prune, balance"), ("overview parsing", "routing/routing_handler.go:parseRowV3, parseRowV4")],
  ["connections seen by each cluster member over time"])

p("C23", "The routing pool is safe and live under concurrency",
  "Under any interleaving of borrowing, using, returning and stopping by many goroutines while refreshes run in the background there is no data race, crash or deadlock, and every connection is on loan to at most one borrower. "
  "After stopping, no connection remains open once outstanding loans are handed back, and no background activity goes on.",
  ["schedules", "histories"], "all interleavings of concurrent routing pool users and the refresher",
  "No test runs the routing pool.",
  ["routing/pool.go", "routing/queue.go", "routing/util.go"], [("locking", "routing/pool.go:BorrowRConnection, BorrowRWConnection, Reclaim, refreshHandler, Stop")],
  ["IRoutingPool from many goroutines", "race detector", "connections seen by each cluster member"])

p("C24", "Client configuration takes effect as written",
  "A client configured by options connects to exactly the given host (name, IPv4 or IPv6) and port with exactly the given user and password, whatever characters they contain, and with the given timeout and chunk size; a connection string giving the same settings has the same effect. "
  "Routing is used exactly when asked for; incomplete, contradictory or malformed configuration is refused with an error and connects nowhere.",
  ["configurations", "inputs"], "all option combinations and connection strings, including credentials with reserved characters",
  "Tests check a handful of option errors and never look at what a configured client does.",
  ["client.go", "opt.go", "driver.go", "connection/connection.go", "driver_routing_pool.go"], [("options", "opt.go"), ("connection string construction", "client.go:NewClient"), ("connection string parsing", "connection/connection.go:newConnectionFromConnectionString")],
  ["NewClient error", "what the server sees on Open"])

p("C25", "Encryption requested is encryption used and verified",
  "When encryption is requested, by option or connection string, on single, pooled or routing connections, no byte of protocol data (in particular no credentials) is ever sent unencrypted, and the server's certificate must chain to the configured authority and match the host unless verification was explicitly switched off; otherwise opening fails. "
  "A configured client certificate is presented; unreadable or incomplete certificate settings are errors, never a fallback.",
  ["configurations", "fault_sequences"], "all combinations of encryption settings, entry points and server certificates or plaintext servers",
  "No test opens an encrypted connection.",
  CONN + ["client.go", "routing/pool.go"], [("TLS setup", "connection/connection.go:createConnection, tlsConfig"), ("propagation", "client.go:NewClient, getTlsPortion; routing/pool.go:addAuthInfoToConnStr")],
  ["bytes seen by the server before and after the handshake", "error of Open"])

p("C26", "Result counters report what the server sent, or absence",
  "Result accessors return exactly the counter the server put in the summary with a positive indication, and a negative indication when the statistics or that counter are missing or not a number, without ever panicking. "
  "Each accessor reads its own counter only, and the raw metadata is available unchanged. The time given by a success message, and the views of parameters and rows, report exactly what they hold.",
  ["inputs"], "all summary metadata, including missing, partial and wrongly typed statistics",
  "Tests use one summary from a live database.",
  ["connection/result.go", "structures/messages/responses.go"], [("accessors", "connection/result.go"), ("message accessors", "structures/messages/responses.go:GetAvailableAfter, GetCode, GetMessage")],
  ["IResult methods after a query"])

p("C27", "Errors keep their cause and text",
  "Wrapping an error any number of times keeps the original as innermost cause, and the printed text contains every message of the chain exactly as formatted. "
  "Failure replies expose code and message, with neutral values when absent or of another type, and messages taken from other errors are never reinterpreted as formats.",
  ["inputs"], "all wrap chains and message texts (including percent signs) and failure metadata",
  "The errors package has no tests.",
  ["errors/errors.go", "structures/messages/responses.go", "client.go"], [("wrap", "errors/errors.go:New, Wrap, InnerMost, Error")],
  ["errors API", "errors of NewClient"])

p("C28", "Logging obeys its level and the library prints nothing by itself",
  "With logging off, which is the default, no operation writes anything to standard output, standard error or the loggers; at each level exactly the messages of that level and below are written. "
  "Passing any value or query, in any encoding, to a connection, a pool or a routing pool whose cluster changes or fails, never produces output on its own. The password of a connection is never written at any level.",
  ["inputs", "histories", "configurations"], "all levels, operations and values",
  "No test looks at the output of operations.",
  ["log/log.go", "encoding/encoding_v2/decoderV2.go"], [("level gates", "log/log.go")],
  ["stdout, stderr and logger output of the process"])

p("C29", "What is passed in stays untouched, what is handed out stays put",
  "No operation changes the parameters, values or bytes a caller passes, and changing them after the call changes nothing that was sent or decoded. "
  "Rows, summaries, decoded values and encoded bytes belong to the caller: no later request, encoding or decoding alters them, and altering them never shows in any other answer. "
  "Separate connections, encoders and decoders used at the same time do not influence each other, even when they are given the same parameters, and there is no data race.",
  ["inputs", "histories", "schedules"], "all values, all histories of statements, all interleavings of separate users",
  "Tests look at one answer at a time and let go of it before the next.",
  ["encoding/encoding_v1/decoderV1.go", "encoding/encoding_v2/decoderV2.go", "encoding/encoding_v1/encoderV1.go", "encoding/encoding_v2/encoderV2.go", "structures/messages"] + CONN, [("codecs", "encoding/encoding_v2/decoderV2.go:Decode, Unmarshal; encoderV2.go:Encode, Marshal"), ("results", "connection/connection.go:runQuery, connection/result.go")])

p("C30", "What went wrong can be told from the error",
  "When a request on an open connection fails because the connection broke under it (the server hung up, reset the connection, or did not answer in time), the innermost cause of the error is database/sql/driver.ErrBadConn. "
  "When it fails because the server failed it, the error is an *errors.Error whose InnerMost() is the messages.FailureMessage with all the metadata the server sent, and it does not say that the connection is bad. "
  "What the driver refuses itself on a connection that works (a database name on an old version, a parameter that can not be carried, a transaction that is over) is neither. "
  "The same can be told when opening fails after the server was reached.",
  ["inputs", "histories", "faults"], "all histories, all failures with any metadata, every point at which the connection can break",
  "Tests never let the server go away, and a server that goes away does so at one of many points; which of them a caller meets decides whether retrying on a new connection makes sense.",
  CONN + ["errors/errors.go", "structures/messages/responses.go", "doc.go"], [("I/O errors", "connection/connection.go:readWrite.Read, readWrite.Write"), ("failures", "connection/connection.go:consume, reset"), ("causes", "errors/errors.go:Wrap, InnerMost")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
