#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
V1E="encoding/encoding_v1/encoderV1.go"; V1D="encoding/encoding_v1/decoderV1.go"
V2E="encoding/encoding_v2/encoderV2.go"; V2D="encoding/encoding_v2/decoderV2.go"
CON="connection/connection.go"; TX="connection/transaction.go"; RES="connection/result.go"
POOL="driver_pool.go"; FAC="connection_pool_factory.go"; RP="routing/pool.go"; RH="routing/routing_handler.go"
CL="client.go"; OPT="opt.go"; BLD="structures/messages/builder.go"
NOTESTS="The only reliably passing tests are sampled quick.Check calls on single encoder functions, option setters and the version lookup; nothing that talks to a server runs (all such tests need a live Neo4j)."

prop("W01","Messages are chunked exactly, for every message size and chunk size",
 "Every message the driver sends is a sequence of non-empty chunks, none larger than the configured chunk size, each announcing exactly the number of bytes that follow, closed by one zero-length chunk. The concatenated chunk contents are exactly the encoding of the message, whatever its size and whatever the chunk size. Two messages sent one after the other never run into each other.",
 ["inputs","configurations"],"all message sizes (below, at and far above the chunk size and 64 KiB), all chunk sizes 1..65535, both codec generations, any sequence of messages",
 NOTESTS+" They encode tiny values with the default chunk size only, so no message ever needs a second chunk.",
 [V1E,V2E,CON],[("chunking writer and flush","EncoderV1/EncoderV2.Write and flush"),("chunk size configuration","Connection.SetChunkSize, NewEncoder")],
 [("chunkSize","maximum chunk payload","Connection, EncoderV1, EncoderV2")],["bytes received by the server","bytes written to an io.Writer by an encoder"])
prop("W02","Core values and graph entities survive the wire unchanged",
 "Null, booleans, 64-bit integers, floats, strings, lists, maps, nodes, relationships and paths are encoded as a PackStream encoding of exactly that value, and every well-formed encoding of such a value is decoded to exactly that value, at every size and up to a large nesting depth. Typed slices and the smaller integer types are encoded as the list or integer they denote. An integer that does not fit 64 bits signed is refused, never altered.",
 ["inputs"],"all values, all size classes (0,15,16,127,128,255,256,32767,32768,65535,65536,...) of strings, lists, maps and structures, all integer boundaries, both codec generations",
 NOTESTS+" The encoder tests build their expected bytes with the same size conversion as the code, the decoder tests use short values, and there is no round trip at any size boundary.",
 [V1E,V1D,V2E,V2D,"encoding/util.go","structures/graph/node.go"],[("type dispatch and size classes","encode*/decode* of both codecs"),("slice conversions","encoding/util.go")],(),["Marshal/Unmarshal","Connection.Query rows and parameters received by the server"])
prop("W03","Temporal, duration and spatial values survive the wire unchanged",
 "On protocol versions that have them, dates, clock times, local times, local date-times, zoned date-times, durations and 2D/3D points sent by the user denote the same date, wall-clock time, offset, instant, length or coordinates on the wire, and those received are returned denoting the same. This holds across zone offsets, daylight-saving changes, dates far from the epoch and negative durations. (A duration received in months counts a month as a twelfth of a mean Gregorian year; a wall-clock time that its zone skips is exempt. A value that Go or the protocol cannot express is refused with an error.)",
 ["inputs"],"all dates, times, offsets, zones, durations and points representable in the protocol and in the Go types used",
 NOTESTS+" No temporal or spatial value is ever encoded or decoded by a test that runs.",
 [V2E,V2D,"structures/types/point.go"],[("temporal encoders","encodeDate/encodeClock/encodeLocalClock/encodeLocalTime/encodeTime/encodeDuration"),("temporal decoders","decodeDate..decodeDuration, decodePoint2D/3D")],(),["encoding_v2.Marshal/Unmarshal","Connection.Query"])
prop("W04","Malformed server data is always reported as an error",
 "Whatever bytes a server sends, decoding ends with either a value that the bytes really encode or an error. It never panics, never hangs once the message is complete, never returns a silently shortened or invented value for truncated or ill-typed data, and never allocates memory out of proportion to the bytes received.",
 ["inputs","fault_sequences"],"all byte strings: truncations at every offset, wrong element types, wrong structure sizes, huge declared sizes, unknown markers and signatures, non-string map keys",
 NOTESTS+" No decoder test contains malformed input.",
 [V1D,V2D,"encoding/util.go"],[("marker dispatch and length reads","DecoderV1/DecoderV2.decode"),("structure decoding","decodeStruct and the decoders it calls")],(),["Unmarshal","Connection.Query against a corrupted reply"])
prop("W05","The way the network splits the byte stream does not matter",
 "The result of every call depends only on the bytes the server sends, not on how TCP or the server groups them: any split into chunks, any split of chunks, headers and handshake reply into network segments, gives the same result.",
 ["schedules","inputs"],"all chunkings of every reply and all segmentations of the byte stream, including single bytes and segments that span messages",
 NOTESTS+" Decoders are only fed from complete in-memory buffers with one chunk.",
 [V1D,V2D,CON],[("chunk reassembly","read/readData of both decoders"),("handshake read","Connection.handshake")],(),["Connection calls against a server that fragments replies"])
prop("W06","A value that cannot be sent is refused before anything is sent",
 "A call whose query parameters contain a value the protocol cannot represent returns an error and puts nothing of the refused message on the wire. The connection, and any open transaction on it, remain usable and later calls behave as if the refused call had not been made.",
 ["inputs","histories"],"all unsupported Go values at any depth and position, any parameter sizes around them, in and out of transactions, all protocol versions and chunk sizes",
 NOTESTS+" A failing encode is never followed by another use of the same connection.",
 [V1E,V2E,CON],[("encode before flush","EncoderV1/EncoderV2.Encode"),("sending","Connection.sendMessage, runQuery")],(),["bytes received by the server","results of later calls"])

prop("S01","A connection is returned only after version agreement and authentication",
 "Opening a connection succeeds only if the server chose a version the driver offered and supports and then accepted the initialisation message. In every other case (no common version, unknown version, authentication refused, unexpected or malformed answer, disconnect at any point) the caller gets an error and no connection, and the network socket is closed.",
 ["fault_sequences","configurations"],"all server answers to the handshake and to the initialisation message, disconnects at every byte of both, plain and TLS",
 NOTESTS+" No test performs a handshake.",
 [CON,"protocol/util.go","connection/const.go"],[("handshake","Connection.handshake/initialize"),("initialisation","Connection.sendInit")],(),["CreateBoltConn / Open result","socket closed as seen by the server"])
prop("S02","Every message fits the negotiated protocol version and the session state",
 "Each message on the wire has the signature and fields that the negotiated version defines for the operation requested (initialisation, run, pull, discard, transaction begin/commit/rollback, reset, goodbye), and is legal in the session's state at that moment. The query text, parameters and database in it are exactly those the caller asked for, and the other fields exactly those the message was constructed from; connections always ask for write access.",
 ["programs","histories","configurations"],"all sequences of API calls on all four protocol versions, with every server answer, and all arguments of the exported message and metadata constructors",
 NOTESTS+" No test looks at which messages a call produces.",
 ["protocol/protocol_v1/bolt.go","protocol/protocol_v2/bolt.go","protocol/protocol_v3/bolt.go","protocol/protocol_v4/bolt.go",BLD,"structures/messages/tx.go","structures/messages/run_with_metadata.go","structures/messages/discard.go","structures/messages/pull.go","structures/messages/init.go",CON],
 [("per-version message construction","IBoltProtocol implementations"),("metadata","BuildTxMetadataWithDatabase, auth token builders")],(),["messages received by the server","encoding of constructed messages"])
prop("S03","Every result belongs to the statement that asked for it",
 "A call returns exactly the records, in order, and the summary metadata that the server produced for that call's own statement, or an error. No record, summary or failure of one call is ever delivered to another, no matter which earlier calls failed, were refused or timed out.",
 ["histories","fault_sequences"],"all sequences of calls and all server answers to each, including failures at every stage, IGNORED answers, late answers after a timeout and answers of the wrong kind",
 NOTESTS+" No call sequence is ever run.",
 [CON,TX],[("response consumption","Connection.runQuery/consume"),("resynchronisation","Connection.reset"),("fencing","Connection closed flag")],
 [("closed","connection no longer usable","Connection")],["rows and metadata returned by Query/Exec"])
prop("S04","A server failure is reported with its cause and the session recovers",
 "When the server reports a failure for a statement, that call returns an error from which the server's code and message can be read. If the server then accepts the reset, the same connection executes later statements normally; if it does not, the connection is closed.",
 ["histories","fault_sequences"],"failures reported at any stage of any call (run, during the record stream, begin, commit, rollback), any number of ignored messages before the reset answer, any reset answer",
 NOTESTS,
 [CON,"errors/errors.go","structures/messages/responses.go"],[("failure handling","Connection.consume, Connection.reset"),("error wrapping","errors.Wrap")],(),["errors returned","messages sent after the failure"])
prop("S05","A broken connection is fenced off and released",
 "After a read or write error, an end of stream, a timeout, an undecodable message or an answer of an unexpected kind, the failing call returns an error, the socket is closed, and nothing more is ever sent on it. Every later call on that connection fails at once, it reports itself as not open, and a pool will not hand it out again; network failures are identifiable as a bad connection.",
 ["fault_sequences","crash_points"],"every point of every call at which the peer can disconnect, stall, or send garbage or an unexpected answer, followed by any further calls",
 NOTESTS+" No network fault is ever injected.",
 [CON,TX],[("I/O wrapper","readWrite.Read/Write"),("decode and dispatch","Connection.consume, runQuery, BeginWithDatabase"),("liveness test","Connection.ValidateOpen")],
 [("closed","fence","Connection")],["return values of later calls","bytes received and EOF seen by the server"])
prop("S06","No call blocks longer than its timeout when the server stops answering",
 "If the server (or network) goes silent at any point - before or during the TCP/TLS/Bolt handshake, the initialisation, or any request - the pending call returns an error within a small multiple of the configured timeout. The timeout in force is the one the user configured or last set on the connection.",
 ["fault_sequences","configurations"],"every point at which the peer can stop answering, every operation, plain and TLS, every way of configuring the timeout",
 NOTESTS,
 [CON,CL,OPT],[("deadlines","readWrite.Read/Write, createConnection"),("timeout configuration","newConnectionFromConnectionString, WithTimeout, SetTimeout")],
 [("timeout","I/O deadline","Connection")],["duration of calls"])
prop("S07","Concurrent statements on one connection do not interleave",
 "When several goroutines use one connection or its open transaction at the same time - statements, begin, commit, rollback - the server sees the messages of each call contiguously and each caller gets the outcome of its own call. A call made while another is running waits for it, and is never sent into the middle of it.",
 ["schedules"],"all schedules of several goroutines issuing statements on one connection, with slow, failing and disconnecting servers",
 NOTESTS+" No test uses a connection from two goroutines.",
 [CON,TX],[("statement mutex","Connection.mutex in runQuery")],[("mutex","serialises statements","Connection")],["message order at the server","results per goroutine"])
prop("S08","The requested database is honoured or the call is refused",
 "On a protocol version with multiple databases, a statement or transaction naming a database is executed against exactly that database, and one naming none against the server's default. On earlier versions, or inside a transaction opened on a different database, a call naming a database is refused with an error and nothing is sent.",
 ["programs","configurations"],"all combinations of call (statement, transaction begin, statement in a transaction), protocol version, named database and transaction database",
 NOTESTS,
 [CON,TX,"protocol/protocol_v4/bolt.go",BLD],[("multi-database guard","ExecWithDb, QueryWithDb, BeginWithDatabase"),("metadata","BuildTxMetadataWithDatabase")],(),["db field in messages at the server","refusals"])
prop("S09","Result summaries and counters are faithful and total",
 "For any summary metadata the server sends, the result's metadata is that metadata, each counter accessor returns the server's number with true when that counter is present, and false when it is absent or not a number. No accessor ever panics.",
 ["inputs"],"all summary maps: statistics absent, empty, partial, of another type, each counter absent, present or ill-typed",
 NOTESTS,[RES],[("accessors","boltResult methods")],(),["IResult methods"])
prop("S10","Closing a connection always releases it",
 "Closing a connection closes its socket in every state - idle, in a transaction, after failures, when the rollback or farewell cannot be sent or is answered with an error - and an open transaction is rolled back first if the connection still works. A second close, and any use after close, returns an error without sending anything.",
 ["histories","fault_sequences"],"all connection states and all server answers and faults during close",
 NOTESTS,[CON,TX],[("close","Connection.Close"),("rollback","boltTransaction.Rollback"),("farewell","GetCloseMessage")],[("closed","closed flag","Connection")],["EOF seen by the server","errors"])

prop("T01","Commit and rollback report success only if the server confirmed it",
 "Commit returns nil if and only if the server confirmed the commit of that very transaction, and rollback returns nil only if the server confirmed the rollback. If a commit returns nil every statement of the transaction that returned success is durable; a rolled-back transaction leaves nothing behind.",
 ["fault_sequences","histories"],"all transaction histories on all four protocol versions, with every answer and every disconnect point during begin, statements, commit and rollback",
 NOTESTS,[TX,CON],[("commit/rollback exchange","boltTransaction.Commit/Rollback"),("begin","Connection.BeginWithDatabase")],
 [("transaction","open transaction of the connection","Connection"),("closed","transaction finished","boltTransaction")],["return values against the model server's committed state"])
prop("T02","A finished transaction is inert",
 "Once a transaction has been committed, rolled back, or ended by a server failure or connection loss, statements, commit and rollback on it return an error and send nothing. In particular a statement issued through it is never executed outside the transaction, and never inside a later one.",
 ["histories","fault_sequences"],"all ways a transaction can end, followed by any calls on the old handle, with or without a newer transaction open",
 NOTESTS,[TX,CON],[("closed checks","boltTransaction methods"),("abandon on failure","Connection.reset")],[("closed","transaction finished","boltTransaction")],["messages at the server after the end of the transaction"])
prop("T03","One transaction at a time, and statements run inside it",
 "A connection has at most one open transaction: beginning another while one is open is refused with nothing sent, and after the first has ended a new one can be begun. Every statement issued through an open transaction reaches the server between that transaction's begin and its end.",
 ["histories","programs"],"all sequences of begin, statements, commit, rollback and failures",
 NOTESTS,[CON,TX],[("open-transaction slot","Connection.transaction")],[("transaction","open transaction","Connection")],["messages at the server"])

prop("P01","A pooled connection has at most one user at a time",
 "Between the moment a pool hands out a connection and the moment it is reclaimed, no other caller receives the same connection, under any concurrency. Connections a caller never received are never handed to it twice.",
 ["schedules"],"all schedules of concurrent open, use, reclaim and close by several goroutines, with servers that fail and disconnect",
 NOTESTS,[POOL,FAC],[("borrow/return","driverPool.open/reclaim")],(),["identity of connections between Open and Reclaim"])
prop("P02","A pool never exceeds its size and never loses capacity",
 "A pool of size N never has more than N connections open, and after any sequence of failures - dial errors, connections that died while idle or in use, failed returns - N callers can again hold a connection each as soon as the server is reachable. A caller is blocked only while N others hold connections.",
 ["schedules","fault_sequences","histories"],"all histories of opens, reclaims, dial failures and connection deaths",
 NOTESTS,[POOL,FAC],[("capacity accounting","ConnectionPooledObjectFactory, driverPool.open")],(),["number of sockets at the server","Open returning"])
prop("P03","A connection handed out is live and clean",
 "A connection obtained from a pool is open as far as can be known at that moment - one the server has already closed is replaced, not handed out - and carries nothing of a session over from its previous user: no open transaction, no unread result, no failed state. Work left uncommitted by the previous user is rolled back.",
 ["histories","fault_sequences"],"all ways a previous user can leave a connection (transaction open, failed, broken) and all times at which an idle connection can die",
 NOTESTS,[POOL,FAC,CON],[("validation","ConnectionPooledObjectFactory.ValidateObject/ActivateObject, Connection.ValidateOpen"),("passivation","PassivateObject, Connection.MakeIdle")],(),["first messages of the next user","liveness of the handed out connection"])
prop("P04","Closing a pool releases everything and blocks nobody",
 "After a pool is closed every connection of it is closed - idle ones at once, borrowed ones when they are reclaimed - waiting and later opens return an error instead of blocking, and closing does not wait for them. Closing twice returns an error.",
 ["schedules","histories"],"closing at any moment: with idle, borrowed and waited-for connections",
 NOTESTS,[POOL,FAC],[("close","driverPool.close/open")],[("closed","pool closed","driverPool")],["sockets at the server","return of blocked calls"])

prop("R01","Reads and writes go to cluster members of the right role",
 "A connection obtained for writing is to a member that is a leader in the topology the pool last learned, one for reading is to a follower or read replica of it, using the member's Bolt address and the configured credentials and security. The connections of a role are spread over all its eligible members.",
 ["configurations","histories"],"all topologies (any number of leaders, followers, replicas, members with other or several addresses), both overview formats, all borrow sequences",
 NOTESTS,[RP,RH],[("role lists","getWriteConnectionStrings/getReadOnlyConnectionString"),("member choice","addWriteConn/addReadConn"),("role parsing","refreshClusterInfo")],(),["server that receives the statement"])
prop("R02","After a topology change stale members are no longer used",
 "Once the pool has learned a new topology, it hands out no connection to a member that lost the role, closes idle ones and closes borrowed ones on reclaim; connections it opens from then on go to the members eligible now, new ones included. A shrinking topology never breaks the pool.",
 ["histories","schedules"],"all sequences of topologies, with connections idle and borrowed at each change",
 NOTESTS,[RP,RH],[("refresh","refreshConnections/prune/balance"),("retirement","markForDeletion")],[("rwStrings/readStrings","eligible members","routingPool")],["server that receives the statement after the refresh"])
prop("R03","A routing pool is exclusive, bounded and safe under concurrency",
 "Under any concurrent use a routing pool hands each connection to one borrower at a time, never crashes or deadlocks, and never holds more connections open per role than configured.",
 ["schedules"],"all schedules of concurrent borrow, reclaim, refresh and stop",
 NOTESTS,[RP,"routing/queue.go"],[("pool mutex","routingPool.mutex"),("queues","Queue")],(),["identity of borrowed connections","number of sockets at the servers"])
prop("R04","A routing pool discards dead connections, heals, and stops cleanly",
 "Dead connections are never handed out; after members become reachable again the pool is back at its configured size by the next refresh at the latest, and one reclaimed dead is not put back. Stopping closes every idle connection at once and every borrowed one on reclaim, ends the background refresh, and later borrows return an error; a start that fails leaves nothing open.",
 ["fault_sequences","histories"],"all histories of member failures, reclaims, refreshes and stop, including start failures",
 NOTESTS,[RP],[("liveness checks","internalBorrow, Reclaim"),("balance","balance"),("stop","Stop")],[("running","pool state","routingPool")],["sockets at the servers","borrow results"])
prop("R05","A bad topology answer never destroys a good one",
 "If the topology query fails, or its answer is malformed in any way, the pool keeps serving according to the last good topology, without crashing. Members without a usable Bolt address are skipped, not fatal.",
 ["inputs","fault_sequences"],"all malformed rows, types, lengths, roles, addresses, failures and disconnects in answer to the topology query",
 NOTESTS,[RH,RP],[("row parsing","parseRowV3/parseRowV4"),("refresh error handling","refreshConnections")],(),["borrow results after the bad refresh"])

prop("K01","The credentials given are the credentials presented",
 "The user name and password configured - by option or by connection string, of any characters - are presented unchanged to every server the driver connects to, including cluster members discovered by routing, and are sent nowhere else. A user without a password in a connection string is refused.",
 ["configurations","inputs"],"all user names and passwords, both ways of configuring, direct, pooled and routed",
 NOTESTS,[CL,CON,RP,"structures/messages/init.go"],[("connection string construction","NewClient, getUsernamePassword, addAuthInfoToConnStr"),("authentication token","BuildAuthTokenBasic")],(),["principal and credentials at the server"])
prop("K02","A connection configured for TLS is never made in the clear",
 "If TLS is requested, by option or connection string, every connection - direct, pooled, routed, and to discovered members - is encrypted, and the server certificate is verified unless verification was switched off. The configured CA, client certificate and key are the ones used; a TLS problem is an error, never a fallback to plain text.",
 ["configurations","fault_sequences"],"all combinations of TLS options and both ways of configuring, servers with good, bad and no certificates",
 NOTESTS,[CL,CON,RP],[("tls configuration","NewClient, getTlsPortion, tlsConfig, createConnection")],(),["first bytes at the server","handshake result"])
prop("K03","Configuration is validated and then honoured exactly",
 "A configuration that is incomplete or contradictory (no host, invalid port, unsupported scheme, bad timeout, a setting given differently by option and by connection string, routing without a pool) is refused with an error, at the latest when a connection is opened. An accepted one leads to connections to exactly the configured host and port, with the configured timeout and in routing or direct mode as configured, whatever characters the other settings contain.",
 ["configurations"],"all combinations of options and connection strings, IPv4, IPv6 and named hosts",
 NOTESTS+" Option tests only check that setters store their argument.",[CL,OPT,CON,"driver_routing_pool.go"],[("option application","NewClient, opt.go"),("connection string parsing","newConnectionFromConnectionString")],(),["NewClient result","server reached"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
