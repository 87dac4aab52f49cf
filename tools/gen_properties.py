#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

ROOT = "The root package has no test that runs without a MySQL server"
add("C01", "A unit of work reaches the wire as exactly its operations, in order",
 "For every program of builder calls, what is handed to the connection is a concatenation of complete X Protocol frames whose lengths exactly cover the bytes: one message per operation (plus the begin/commit, isolation, expectation open/close and last-insert-id statements an operation stands for), in program order, each with the message type, table, columns, rows, assignments, criteria, statement text, statement id and arguments that were given. Insert, update and delete messages address a table (not a document collection).",
 ["programs", "inputs"], "every program of up to 3 builder operations (nested to depth 3) over an alphabet covering every operation, and every name/statement/row size 0..17000 and around 2^21",
 ROOT + "; the xproto tests encode one isolated message at a time for a handful of short inputs and mostly check only the name.",
 ["builder.go", "crud.go", "xpipe.go", "xproto/xproto.go", "xproto/insert.go", "xproto/update.go", "xproto/prepare.go", "xproto/expect.go", "slice/slice.go"],
 [("length back-patching of appended messages", "builder.go Insert/Update/InsertRow, crud.go InsertF/UpdateF, xproto StmtExecute/Execute/Delete"), ("varint size prediction", "xproto/protobuf.go"), ("row length shifting", "xproto/insert.go AppendInsertRow")],
 observe=["bytes passed to netx.Sender.Send"])
add("C02", "Statement arguments decode to the Go values that were bound",
 "Every supported argument value given to a direct or prepared statement execution is transmitted as a scalar of the matching protocol type (signed, unsigned, double, float, bool, octets, string, null) holding exactly that value, with the content type or collation its wrapper names. Non-nil pointers are transmitted as the value they point to, and nil, nil pointers and nil byte slices as NULL.",
 ["inputs"], "all 8/16-bit integers, structured 32/64-bit integers and floats (all 32-bit patterns in the thorough tier), all string/bytes lengths 0..17000 and around 2^21, every wrapper",
 "xproto's tests sample about fifty values, almost all with one-byte lengths, and never a long string, a wrapper type, a pointer or a collation.",
 ["xproto/any.go", "xproto/protobuf.go", "xproto/scalar.go", "expr.go"],
 [("type switch and per-type encoders", "xproto/any.go appendAny"), ("size computation nested three deep", "xproto/any.go AppendAnyBytes/AppendAnyString")],
 observe=["decoded args of StmtExecute / Prepare.Execute"])
add("C03", "Row, SET and criteria literals decode to the Go values that were given",
 "Every supported value used as an inserted column value, an assigned value or an operand of an expression is transmitted as a literal of the matching protocol type holding exactly that value, with the content type or collation its wrapper names; nil and nil byte slices become NULL.",
 ["inputs"], "as C02, through insert rows, update assignments and operator/function parameters",
 "the expression tests sample the same fifty values and never look at a value inside a row, an assignment or an operator.",
 ["xproto/expr.go", "xproto/insert.go", "xproto/update.go", "expr.go"],
 [("type switch and per-type encoders", "xproto/expr.go appendExpr")], observe=["decoded Expr literals"])
add("C04", "Expression constructors denote the documented operator, operands in order",
 "Each exported expression constructor transmits the X Protocol operator or function it is named after, with its operands in the written order and its date unit or column or variable name intact, and arbitrarily nested expressions keep their tree shape. An IN/NOT IN expression keeps the operand list it was constructed with.",
 ["inputs", "programs"], "every exported constructor x operand kinds, every tree of depth <= 3 over a representative constructor set, every name length and total size up to 17000 bytes",
 "tests exercise the raw operator encoder with six fixed calls and check only the operator's name; no exported constructor is called.",
 ["expr.go", "xproto/expr.go", "slice/slice.go"],
 [("operand encoding then header insertion in front", "xproto/expr.go AppendExprOperator/AppendExprFunctionCall, slice.Insert")], observe=["decoded Expr tree"])
add("C05", "Times and durations are transmitted as the same point or span",
 "A time value is transmitted as its own wall-clock date and time with full nanosecond precision, and a duration as [-]hours:minutes:seconds of its magnitude with any fraction of a second dropped, for every representable value.",
 ["inputs"], "all boundary times/durations: every second of a day, every minute/hour carry, all powers of two, the extreme values, several zones and years",
 "the four sampled times/durations are encoded but their text is never compared.",
 ["xproto/any.go", "xproto/expr.go", "xproto/scalar.go"],
 [("duration formatting table", "xproto/scalar.go AppendDuration"), ("time layout and single-byte length fix-ups", "xproto/any.go appendAnyTime, xproto/expr.go appendExprTime")], observe=["decoded octets"])
add("C06", "Messages do not depend on buffer capacity, leftovers or reuse",
 "The bytes sent for a unit of work are the same whatever initial capacity the builder was created with and whatever it was used for before a Reset, and appending a message never alters the messages built before it.",
 ["histories", "configurations"], "every initial capacity from 0 to beyond the message size, for every operation, with poisoned leftovers from an earlier unit of work",
 "tests always append to a nil buffer, so no in-place, shifting or growth path with existing content is reached.",
 ["slice/slice.go", "xproto/insert.go", "xproto/expr.go", "xproto/update.go", "builder.go", "crud.go"],
 [("in-place growth and insertion", "slice.ForAppend, slice.Insert, slice.Allocate"), ("row length shift inside the buffer", "xproto/insert.go")], observe=["bytes passed to netx.Sender.Send", "exported append functions"])
add("C07", "A unit of work with a rejected input or failed callback is never sent",
 "If any value is unsupported, a bulk-insert row has the wrong number of values, an isolation level or expectation context is unknown, a user expression fails, or a callback returns an error, then Send returns that failure without giving the connection a single byte, no matter where in the (nested) unit of work it happened or what followed, and without panicking. After Reset the builder behaves like a new one.",
 ["programs", "inputs"], "every placement of every kind of rejection in every program shape up to depth 3, with every continuation, plus Reset and rebuild",
 ROOT + "; no test triggers an encoding error.",
 ["builder.go", "crud.go", "xproto/any.go", "xproto/expr.go", "xproto/xproto.go"],
 [("sticky error carried through child builders", "builder.go call, send, reset")], observe=["calls on netx.Sender", "returned error"])
add("C08", "Only the innermost open builder can extend the unit of work",
 "While a nested callback (expectation block, transaction, multi-row insert or update) is running, any use of an enclosing builder panics and leaves the unit of work unchanged; once the callback has returned, the enclosing builder works again and handles kept from inside the callback can no longer change what will be sent.",
 ["programs", "histories"], "every nesting of the four callback kinds to depth 3 x every operation on every enclosing builder or expired handle at every position",
 ROOT + "; misuse of an outer or expired handle is never tried.",
 ["builder.go", "crud.go"],
 [("disabled flag on enclosing builders", "builder.go call, crud.go InsertF/UpdateF")], observe=["panics", "bytes sent"])
add("C09", "Transactions and expectation blocks are always correctly bracketed",
 "A transaction is sent as the matching SET TRANSACTION ISOLATION LEVEL statement (none for the default), START TRANSACTION (WITH CONSISTENT SNAPSHOT for snapshot), its body, then COMMIT; an expectation block as an open with the requested context and a no-error condition, its body, and one close. Brackets are balanced and properly nested for every program that can be sent, and COMMIT is never sent unless the whole body was accepted.",
 ["programs"], "all nestings of transactions (all isolation levels incl. unknown) and expectation blocks to depth 3 with bodies that succeed or fail",
 ROOT + " and the structure is produced only there.",
 ["builder.go", "xproto/expect.go"], [("Tx and ExpectFailOnError wrappers", "builder.go")], observe=["decoded message sequence"])
add("C10", "A transactional unit of work through the pool is all-or-nothing",
 "For units of work that put a transaction inside a fail-on-error expectation block and are sent through the pool, the server ends up with all of a transaction's changes, once, or none of them for every placement of a statement error, fatal error or connection loss, and for every sequence of units of work sharing pooled connections. When Send reports no error and no error response, all its transactions are committed; when a response reports that the commit failed or was skipped, that transaction's changes never become durable, not even by a later unit of work.",
 ["histories", "fault_sequences"], "every fault (statement error, fatal error, drop before/after processing, truncated reply) at every message of every unit in histories of up to 3 units over pools of size 0..2, against a session-level server model",
 ROOT + " and no test can make a chosen statement fail or drop the link at a chosen message.",
 ["builder.go", "netx/pool/fifoch/fifoch.go", "netx/connection/connection.go", "xproto/expect.go"],
 [("no_error expectation block around the transaction", "builder.go ExpectFailOnError/Tx"), ("failed connections leave the pool", "netx/pool/fifoch/fifoch.go Send")], observe=["durable state of the simulated server", "responses and error returned by Send"])
add("C11", "Every message gets exactly its own response",
 "When Send succeeds it returns one entry per message sent, in order, nil where the server reported success and the server's error (severity, code, SQL state, text intact) where it reported a non-fatal error, whatever notices, metadata, rows or other messages precede each terminal reply and however the reply bytes are split or sized. All bytes of the exchange are consumed, so the next unit of work on the connection reads only its own replies.",
 ["inputs", "histories"], "every server reply script over the message alphabet up to 3 messages with up to 2 intermediate messages each, payload sizes around the reader's buffer limits, and every chunking from byte-at-a-time up",
 "no test exercises the connection package at all.",
 ["netx/connection/connection.go", "netx/connection/errors.go"],
 [("terminal message detection and payload discard", "connection.go Read"), ("one read per sent frame", "connection.go ReadResponsesToSlice")], observe=["returned responses", "bytes left in the stream"])
add("C12", "A broken exchange is always reported as an error",
 "If the deadline cannot be set, the write fails, the stream ends or fails at any byte before the last terminal reply is complete, a frame is malformed, or the server reports a fatal error, then Send returns a non-nil error (wrapping the transport's error when there is one) and never reports success for a message whose terminal reply was not received.",
 ["fault_sequences", "inputs"], "every byte position of the reply stream of every script as the failure point, every error kind, every malformed frame class",
 "no test exercises the connection package at all.",
 ["netx/connection/connection.go"], [("error returns of Peek/ReadFull/Unmarshal", "connection.go Read")], observe=["error returned by Send"])
add("C13", "One write and one deadline per unit of work",
 "Each Send performs exactly one Write carrying the complete unit of work before it reads anything, and first sets the connection's deadline to the context's deadline, or clears any earlier one when the context has none.",
 ["histories", "configurations"], "every sequence of up to 4 sends/authentications over contexts with and without deadlines and messages of many sizes",
 "no test observes the net.Conn calls.",
 ["netx/connection/connection.go", "xpipe.go"], [("SetDeadline then Write then read", "connection.go Send/WriteOne")], observe=["calls on net.Conn"])
add("C14", "Connecting succeeds exactly when the server accepts the credentials",
 "Opening a connection succeeds if and only if the server accepts an authentication attempt, for every sequence of server replies; challenges are answered only when the chosen mechanism expects them, protocol violations and errors are reported, and a refusal is reported as the server's own error. On a secure channel an access-denied refusal is retried once in clear text, and that attempt decides.",
 ["histories", "inputs"], "every server reply sequence up to depth 4 from the alphabet {ok, continue, error, access denied, fatal, notice, unrelated, truncated, close} x mechanism x transport",
 "no test connects to anything.",
 ["netx/connector/connector.go", "netx/connection/connection.go"], [("authentication state machine", "connection.go Authenticate, connector.go New")], observe=["result of Connector.New", "messages the server received"])
add("C15", "Authentication proofs are correct for every credential and challenge",
 "For every database, user name, password and server challenge, each mechanism sends a well-formed authentication message naming that database and user, whose proof verifies under that mechanism's definition with that password and challenge and reveals nothing else; an empty password sends no MYSQL41 proof.",
 ["inputs"], "all lengths 0..300 of database/user/password (crossing every internal buffer size), challenges of length 0..40, all three mechanisms, every scratch-buffer capacity",
 "the authentication packages have no tests.",
 ["netx/connector/authentication/mysql41/mysql41.go", "netx/connector/authentication/sha256/sha256.go", "netx/connector/authentication/plain/plain.go", "xproto/authentication.go", "slice/slice.go"],
 [("in-place hashing inside the output buffer", "mysql41.go/sha256.go Continue"), ("scratch allocation", "slice.Allocate")], observe=["decoded AuthenticateStart/AuthenticateContinue"])
add("C16", "Credentials are never exposed on an insecure channel",
 "With TLS configured on a TCP connection, nothing but the TLS capability request is sent and nothing the server said in clear is trusted before the TLS handshake has completed and verified. The clear-text password fallback is attempted only after an access-denied reply, at most once, and only over TLS or a Unix socket.",
 ["histories", "fault_sequences", "configurations"], "every server behaviour during capability negotiation and authentication x {tcp, tcp+tls, unix} x mechanisms, including replies injected in clear before the handshake",
 "no test connects to anything, let alone to a hostile server.",
 ["netx/connector/connector.go", "netx/connection/connection.go"], [("TLS upgrade and reader reset", "connector.go New, connection.go Reset"), ("IsSecure guard on the PLAIN fallback", "connector.go New")], observe=["bytes seen by the server in clear", "messages received"])
add("C17", "A failed connection attempt releases its socket",
 "Whenever opening a connection fails, at any step and for any reason, the network connection it dialled has been closed; when it succeeds the connection is open and usable.",
 ["fault_sequences"], "every failure point and server behaviour enumerated for C14/C16",
 "no test connects to anything.",
 ["netx/connector/connector.go"], [("Close on the error paths", "connector.go New")], observe=["end of stream at the server"])
add("C18", "The pool never shares, leaks or double-closes a connection",
 "Under every interleaving of concurrent sends and closes, a connection is used by at most one send at a time, is never used after being closed, is closed at most once, and is either idle in the pool or closed once its send has returned; connections whose exchange failed are closed and never reused. No interleaving panics or deadlocks.",
 ["schedules", "fault_sequences"], "all interleavings (statement granularity, up to 1-4 preemptions, more in the thorough tier) of 2-4 threads doing sends/closes over pools of size 0..3 with 0..3 idle connections, with every connector/connection failure pattern",
 "the pool has no tests and the windows are a few instructions wide.",
 ["netx/pool/fifoch/fifoch.go"], [("channel as idle list", "fifoch.go Send/Close"), ("mutex", "fifoch.go")], observe=["calls on fake connector and connections"], hook="source instrumentation through a build overlay only; /repo unchanged")
add("C19", "Closing the pool is final, idempotent and complete",
 "Close may be called any number of times, concurrently with sends, without panicking; once a Close has returned nil (and no other Close is still running) every idle connection is closed, every later send (with a live context) fails with the pool-closed error without dialling, and connections still in use are closed when their send finishes.",
 ["schedules", "histories"], "all interleavings (statement granularity, up to 2-4 preemptions, more in the thorough tier) of 1-3 closes with 0-3 sends, with cancelled and live contexts, over pools of size 0..2",
 "the pool has no tests.",
 ["netx/pool/fifoch/fifoch.go", "netx/pool/pool.go"], [("closing the idle channel", "fifoch.go Close")], observe=["errors returned", "closed connections"])
add("C20", "The pool reuses healthy idle connections first-in first-out",
 "A send uses the longest-idle healthy connection if there is one (a connection stays healthy while its exchanges end without an error and without an error response) and dials a new one only if there is none, keeps at most the configured number idle (closing the surplus), hands the caller the exact responses and error of that connection, and reports dial failures and cancelled contexts without losing connections.",
 ["histories", "configurations"], "every history of the stated number of steps (start a send, answer a dial, end an exchange; succeeding, failing, cancelled, overlapping) over pool sizes 0..3, against a queue model",
 "the pool has no tests.",
 ["netx/pool/fifoch/fifoch.go"], [("buffered channel as queue", "fifoch.go Send")], observe=["which connection served each send", "dials", "closes"])
add("C21", "Independent builders and connections can be used concurrently",
 "Building units of work, opening connections and exchanging messages on separate objects in different goroutines never influence each other: every interleaving produces the same messages and results as running them one after the other, even when expressions or the connector are shared.",
 ["schedules"], "all interleavings with up to 1-2 preemptions (more in the thorough tier) at statement granularity of pairs of operations, values, shared expressions, authentications, exchanges, pooled sends and connection attempts with one connector, without and with the race detector",
 "all tests are single-threaded.",
 ["xproto/any.go", "xproto/expr.go", "xproto/protobuf.go", "slice/slice.go", "builder.go", "expr.go", "netx/connection/connection.go", "netx/connector/connector.go"],
 [("no package-level mutable state, closures capture only immutable values", "all encoders"), ("per-connection reader", "connection.go")], observe=["bytes produced", "results"], hook="source instrumentation through a build overlay only; /repo unchanged")
add("C22", "The caller's data is neither modified nor aliased",
 "No operation modifies the slices, maps, byte strings or credentials passed to it, and once an operation has returned, changing that data no longer affects the unit of work.",
 ["inputs", "programs"], "every operation and every value kind, with the arguments compared before/after and overwritten before Send",
 "no test looks at its inputs afterwards.",
 ["builder.go", "crud.go", "xproto/any.go", "xproto/expr.go", "xproto/insert.go", "netx/connector/authentication"],
 [("encoders copy into the builder's buffer", "xproto")], observe=["arguments after the call", "bytes sent after overwriting them"])
add("C23", "Decimal values are decoded exactly",
 "For every packed decimal the server can send (any scale, sign, and up to 65 digits), both the text form and the decomposed form (sign, coefficient, exponent) denote exactly the encoded number, and the wide-integer arithmetic behind it is exact.",
 ["inputs"], "all digit strings up to 4 digits x all scales x all sign nibbles, structured digit strings of every length to 77, limb-boundary values of the 256-bit arithmetic",
 "the types package has no tests.",
 ["types/decimal.go"], [("multi-limb multiply-add with carries", "decimal.go MulAdd"), ("sign nibble and scale handling", "decimal.go String/Decompose")], observe=["String", "Decompose", "AppendBytes", "MulAdd"])
add("C24", "Collation identifiers and names match MySQL's",
 "Every collation constant has the numeric id MySQL assigns to that collation and prints as its MySQL name, unknown ids print as a number, and exactly the binary collation reports itself as binary.",
 ["inputs"], "all ids 0..65535 against a reference table",
 "the collation package has no tests.",
 ["collation/collation.go"], [("offset table into one string", "collation.go collationMap")], observe=["Collation.String", "Collation.IsBinary"])
add("C25", "Captured insert ids refer to their own insert",
 "Each single-row insert that captures its id is followed immediately by a statement storing the last insert id in a session variable, the returned expression reads exactly that variable wherever it is used later, and captures within one unit of work never share a variable.",
 ["programs"], "every program of up to 4 inserts/other operations with captured ids used in every later position, nested or not",
 "the only test is skipped and needs a server.",
 ["builder.go", "xproto/expr.go"], [("variable name from buffer position", "builder.go InsertRow")], observe=["decoded messages"])
add("C26", "Prepared-statement ids and text survive for every id and length",
 "Prepare, execute and deallocate carry exactly the 32-bit statement id given, prepare carries exactly the statement text, and execute carries exactly the arguments in order, for every id, text length and number of arguments.",
 ["inputs"], "ids: all 16-bit values, every bit-length boundary and all values with up to three set bits (all 2^32 in the thorough tier); text lengths 0..17000; 0..300 arguments",
 "tests use three ids and one-line statements.",
 ["xproto/prepare.go", "xproto/protobuf.go"], [("varint id patching", "prepare.go")], observe=["decoded Prepare/Execute/Deallocate"])
add("C27", "Low-level protocol messages are well formed for every parameter",
 "Session reset, capability, authentication, expectation (no-error and field-exists conditions), variable and placeholder messages built through the exported protocol functions decode to exactly the given parameters for every value and length.",
 ["inputs"], "all field/variable name lengths 0..17000, all placeholder boundary positions, every subset of conditions, every context operation",
 "tests cover reset only; expectation, capability, variable and placeholder encoders are untested.",
 ["xproto/expect.go", "xproto/authentication.go", "xproto/expr.go", "xproto/xproto.go"], [("hand-written varints and length bytes", "xproto/expect.go, xproto/expr.go")], observe=["decoded messages"])
add("C28", "Sending hands over the unit of work and its outcome unchanged",
 "Each Send of an acceptable unit of work gives the connection, exactly once and with the caller's context, everything built since the last Reset, and returns that connection's responses and error as they are. The unit of work is unaffected by being sent: it can be sent again or extended, whatever the outcome, until a Reset empties it.",
 ["histories"], "every history of up to 4-6 steps (5-7 in the thorough tier) of operations, rejected operations, sends with every kind of outcome and resets",
 "tests send once and never look at the outcome.",
 ["xpipe.go", "builder.go"], [("buffer kept until Reset", "builder.go send/reset")], observe=["calls on a recording connection", "result of Send"])
add("C29", "Server errors are identified by MySQL's own numbers",
 "Every exported error-number constant has the number MySQL (or its X Plugin) assigns to the error it is named after. An error reply to a message of a unit of work is reported as a MySqlXError with the server's number, state and text, whose IsFatal is true exactly for fatal severity, and only a fatal one ends the exchange with an error.",
 ["inputs"], "all 1122 constants; error replies with every number below 65536, structured 32-bit numbers and every severity",
 "no test uses the constants or looks at a reported error.",
 ["netx/connection/errs/codes.go", "netx/connection/errors.go", "netx/connection/connection.go"], [("constants", "errs/codes.go"), ("decoding of Error", "connection.go Read")], observe=["value of the constants", "result of Send"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(P))
