"""Writes /verif/properties.jsonl (run by hand after editing; the output is committed)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


PB = "anthunder/protocol/_package_base.py"
RQ = "anthunder/protocol/_request_pkg.py"
RS = "anthunder/protocol/_response_pkg.py"
SH = "anthunder/protocol/_sofa_header.py"
CN = "anthunder/protocol/constants.py"
HB = "anthunder/command/heartbeat.py"
FR = "anthunder/command/fail_response.py"
AL = "anthunder/listener/aio_listener.py"
SL = "anthunder/listener/sock_listener.py"
BL = "anthunder/listener/base_listener.py"
AC = "anthunder/client/aio_client.py"
CC = "anthunder/client/client.py"
CB = "anthunder/client/base.py"
MC = "anthunder/mesh/mesh_client.py"
RI = "anthunder/helpers/request_id.py"
ID = "anthunder/helpers/immutable_dict.py"
KC = "mysockpool/connection.py"
KP = "mysockpool/connection_pool.py"
KM = "mysockpool/pool_manager.py"
KL = "mysockpool/recently_used_container.py"
KU = "mysockpool/utils.py"
TT = "mytracer/tracer.py"
TS = "mytracer/span.py"
TC = "mytracer/span_context.py"
TR = "mytracer/_rpc_id.py"
TI = "mytracer/_trace_id.py"
TH = "mytracer/helpers.py"
TX = "anthunder/protocol/_rpc_trace_context.py"

p("C01", "Encoded frames have the Bolt v1 layout",
  "Every request, response, failure response and heartbeat frame the library encodes has the published Bolt v1 layout: big-endian fixed header (22 bytes for requests, 20 for responses) with the published field order and widths, then class name, header map and content. Each fixed field carries the value the frame was built with, and the three length fields are the byte lengths of exactly the three sections that follow. A frame that cannot be represented is refused with an error of the library, never truncated or wrapped.",
  ["inputs"], "for every header map, content and field value a frame can be built with",
  "The tests encode two or three frames and compare a few attributes; a swapped, narrowed or mis-sized field is invisible for values where both agree (zeros, equal lengths).",
  [PB, RQ, RS, HB, FR],
  [("fmt / bolt_headers / to_stream of both frame classes", RQ + ", " + RS), ("length properties", PB)],
  observe=["bytes returned by BoltRequest/BoltResponse.to_stream()"])

p("C02", "Decoding reads each field from where encoding put it",
  "Decoding the bytes of any encoded request or response gives a frame with the same protocol, type, command, version, request id, codec, timeout or status, header map and content: each decoded attribute is taken from the position, width and signedness at which encoding wrote that attribute. The three variable sections are cut at the announced lengths, in the order class name, header map, content.",
  ["inputs"], "for every frame of either type, and every value of its fields",
  "The round-trip test compares four attributes of one frame per class with mostly zero or equal fields.",
  [PB, RQ, RS], [("bolt_header_from_stream / bolt_content_from_stream / from_stream", PB)],
  observe=["BoltRequest/BoltResponse.from_stream()"])

p("C03", "Protocol code points are the published ones",
  "The numbers used on the wire for protocol, frame type, command, version, codec and response status are those published for SOFABolt v1, no two meanings of one field share a number. A frame is never built, by decoding or by construction, with a number that is outside the published set of its field.",
  ["inputs", "configurations"], "for every code point of every enumerated field",
  "Tests use five of the twenty-four code points, and always through the same table for both sides, so a wrong number cancels out.",
  [CN, PB], [("IntEnum tables", CN), ("enum conversion in the frame constructor", PB)])

p("C04", "The header map codec is length-exact and always terminates",
  "The header map is written as, for each entry, key then value, each as a 4-byte big-endian count of the UTF-8 bytes followed by those bytes, and is read back by the same rule, a count of -1 meaning an empty string. Reading any byte string terminates: each step consumes at least the 4 count bytes, and a count that is negative or runs past the end, or an odd number of strings, is rejected.",
  ["inputs"], "for every mapping of strings and every byte string given to the decoder",
  "Tests use one ASCII map; a byte/character length mix-up needs non-ASCII text and a non-terminating parse needs hostile bytes (as in the 0.5.6 bug).",
  [SH], [("_str_to_bytes_with_len / _bytes_to_str", SH)],
  observe=["SofaHeader.to_bytes / from_bytes"])

p("C05", "Malformed bytes raise only the library's decode error",
  "Whatever bytes they are given, decoding a fixed frame header, a frame body, a whole frame or a header map either succeeds or raises the library's DecodeError; no other exception type escapes.",
  ["inputs"], "for every byte string given to a decode entry point",
  "No test feeds malformed bytes; every failing operation (text decoding, struct, enum conversion, missing pair) would need its own input.",
  [PB, SH], [("except clauses converting to DecodeError", PB), ("explicit DecodeError raises", SH)])

p("C06", "The asyncio server always stays in step with the byte stream",
  "On a connection it keeps serving, the asyncio server has consumed exactly the bytes of one whole frame - fixed header, class name, header map and content, each by the length its own fixed header announces and in that order - before it starts reading the next one. This holds whatever the frame contained: heartbeat, wrong command, wrong class name, malformed header map, unknown service.",
  ["inputs", "histories"], "for every sequence of frames on one connection, well formed or not",
  "Tests only send well-formed frames; losing step needs an invalid frame followed by another frame on the same connection.",
  [AL], [("_handler_connection read loop", AL)],
  observe=["order and sizes of stream reads"])

p("C07", "Replies carry the request id of the request they answer",
  "Every frame either server writes (result, failure, heartbeat acknowledgement) carries the request id taken from the very request frame it answers; no reply is ever written with an id left over from an earlier frame or from anywhere else.",
  ["inputs", "histories", "schedules"], "for every frame sequence and every interleaving of request tasks",
  "Tests check the id on one heartbeat and one reply; stale ids need errors at particular points after earlier traffic.",
  [AL, SL, RS, FR, HB], [("request_id threaded from the decoded header to response_to", AL + ", " + SL)])

p("C08", "The asyncio server answers every two-way request exactly once",
  "For every two-way request frame the asyncio server receives completely, and for every heartbeat, it writes exactly one reply unless the connection is lost: whatever the service does (return empty bytes, return something that cannot be encoded, raise, run too long), and whatever is wrong with the request (missing names, unknown service, malformed header map or trace context, wrong command).",
  ["inputs", "fault_sequences"], "for every complete frame and every outcome of the service",
  "Tests only exercise the successful path with a non-empty result.",
  [AL], [("_dispatch reply on each branch", AL), ("error branches of _handler_connection", AL)])

p("C09", "One-way requests are never answered",
  "Neither server ever writes a reply frame for a request (command REQUEST) whose type is one-way, whether it succeeds, fails, or is rejected. The service method is still run for it.",
  ["inputs", "fault_sequences"], "for every one-way request and every outcome",
  "No test sends a one-way request.",
  [AL, SL], [("PTYPE.ONEWAY guard", AL + ", " + SL)])

p("C10", "Reply statuses tell the true outcome",
  "The asyncio server replies SUCCESS only with the value the service method returned for that request, NO_PROCESSOR only if the service or method is not available, TIMEOUT only if the call ran out of its time, was cancelled or itself failed with a timeout error, CODEC_EXCEPTION only for an undecodable header map, and CLIENT_SEND_ERROR only for a request with missing names or a wrong command or class name. Conversely each of those causes is answered with that status, and any other failure with a failure status.",
  ["inputs", "fault_sequences"], "for every request and every outcome of the service",
  "Tests only look at successful calls; each failing cause would need its own client.",
  [AL, FR, SL], [("status constants on the reply branches", AL)])

p("C11", "Frames are put on the stream whole",
  "Every frame, request or reply, is handed to its connection complete and in one piece: in the asyncio classes by a single write call holding the entire frame, in the blocking client by a send that continues until every byte is accepted. Frames of concurrent requests sharing a connection can therefore never interleave or be cut short.",
  ["schedules", "inputs"], "for every interleaving of tasks and every frame size",
  "Tests send frames of a hundred bytes over loopback, where partial sends and interleaving do not occur.",
  [AL, AC, SL, CC, KC], [("_write_msg", AL), ("writer.write(request.to_stream())", AC), ("SocketConnection.sendall", KC)])

p("C12", "The event loop is never blocked and services run in the pool",
  "Nothing the library runs on an event-loop thread blocks that thread: no sleeping, blocking socket or HTTP operation, waiting for another thread, or blocking queue. In the asyncio server the service method itself is only ever run on a worker thread of the executor.",
  ["schedules"], "for every task the library schedules on a loop",
  "A blocked loop only shows under concurrency and load; the tests tolerate it by sleeping.",
  [AL, AC], [("executor.submit + asyncio.wrap_future", AL), ("coroutines only", AC)])

p("C13", "A closed peer ends every blocking read",
  "When the peer closes its connection, every library loop that reads bytes from that connection ends - by returning or raising - instead of reading again for ever: the threaded server's frame reads, the pooled connection's exact-size read, and the blocking client's wait for a response.",
  ["fault_sequences"], "for every point in a frame at which the peer can close",
  "No test closes a connection in the middle of a frame; the failure is a busy loop.",
  [SL, KC, CC], [("SockBoltHandler._readexactly", SL), ("SocketConnection.recvexactly", KC), ("Client.invoke_sync receive loop", CC)])

p("C14", "Listeners do not share service registrations",
  "A service registered on one listener is served and published by that listener only: registrations live per listener, and creating another listener of either kind in the process neither exposes nor redirects them.",
  ["configurations", "histories"], "for every number of listeners created in one process, in any order",
  "Tests create a single listener.",
  [BL, AL, SL], [("handler.interface_mapping", BL), ("service_handler injection", SL)])

p("C15", "The asyncio server closes every connection it stops serving",
  "Whenever the asyncio server stops reading from a connection - end of stream, unexpected error, failure while reporting one - it has closed the connection or the connection was already lost (a handler cancelled from outside excepted).",
  ["fault_sequences"], "for every fault and every point at which it can strike while a connection is served",
  "Tests never look at the server side of a finished connection.",
  [AL], [("writer.close() before leaving the loop", AL)])

p("C16", "A caller only ever gets the response to its own request",
  "The content returned by a call is that of a response frame carrying the request id of that very call, for both clients, however many calls share the connection and in whatever order responses arrive. A response is filed under the id it carries before its caller is woken, and a caller is registered before its request is written, so a quick response is not lost.",
  ["schedules", "histories"], "for every interleaving of concurrent calls and order of responses",
  "Ten concurrent calls with the same service sample a handful of interleavings on an idle machine.",
  [AC, CC], [("request_mapping / response_mapping keyed by request id", AC), ("request id comparison", CC)])

p("C17", "Every pending asyncio call is completed",
  "A call pending on the asyncio client is woken as soon as its response arrives, whatever that response contains (success, failure status, undecodable content), and as soon as the connection carrying it is lost, whatever the reason. A pending call is never left waiting for a response that can no longer come.",
  ["fault_sequences", "schedules"], "for every response and every way the connection can end",
  "Tests only receive successful responses and never lose a connection.",
  [AC], [("_recv_response wake-up", AC)])

p("C18", "Failures reach the caller as errors of the library",
  "A synchronous call returns content only if a SUCCESS response arrived for it; a response with any other status raises the library's ServerError, and a call that could not be sent, or whose connection was lost before it was over, raises an exception naming that failure - never a result and never an accidental error such as a missing key or attribute.",
  ["inputs", "fault_sequences"], "for every response status and every connection fault",
  "Tests only make successful calls.",
  [AC, CC, "anthunder/exceptions.py"], [("status check before returning content", AC + ", " + CC)])

p("C19", "A finished call leaves nothing behind in the asyncio client",
  "Once a call on the asyncio client is over - answered, failed, timed out, cancelled or one-way - the client keeps no entry for its request id in any of its tables, and a response arriving later for it is dropped.",
  ["histories", "fault_sequences"], "for every way a call can end, in every order with respect to the response",
  "Leaks do not fail a test; tests make ten successful calls.",
  [AC], [("removal of table entries", AC)])

p("C20", "Loop-owned objects are only touched on the loop thread",
  "The public blocking methods of the asyncio client and listener, which run on caller threads, never touch the state of the event-loop thread (pending-call, response and connection tables, asyncio objects); they reach it only by scheduling work thread-safely on the loop.",
  ["schedules"], "for every thread that calls the public API concurrently with the loop",
  "Data races between threads need a specific interleaving that tests cannot force.",
  [AC, AL], [("asyncio.run_coroutine_threadsafe", AC + ", " + AL)])

p("C21", "One connection per address, and failures stay local",
  "The asyncio client never dials an address while another dial to it is in progress or a usable connection to it exists. A send failure discards only the connection it happened on, is retried a bounded number of times, and a request that cannot be encoded fails alone without disturbing the shared connection.",
  ["schedules", "fault_sequences"], "for every interleaving of concurrent senders and every send failure",
  "Tests use one healthy loopback connection.",
  [AC], [("per-address dial lock with re-check", AC), ("eviction and retry in _send", AC)])

p("C22", "One-way calls are sent as one-way and do not wait",
  "A one-way call of either client puts a frame of type one-way on the wire, never waits for a response, and returns no content.",
  ["inputs"], "for every one-way call",
  "No test makes a one-way call.",
  [AC, CC, RQ], [("invoke_oneway", AC + ", " + CC)])

p("C23", "Client heartbeats never stop",
  "While connected through the mesh, the asyncio client sends heartbeat frames for as long as its loop runs, the next at most two intervals after the previous one (one of waiting for the acknowledgement, one of sleeping); no failed, refused, mismatched or missing acknowledgement ends the heartbeats. A heartbeat is reported good only if a SUCCESS acknowledgement with its own request id arrived.",
  ["fault_sequences", "histories"], "for every outcome of every heartbeat",
  "The interval is 30 s and the tests have no mesh, so the timer never runs.",
  [AC, HB], [("_heartbeat_timer / invoke_heartbeat", AC)])

p("C24", "The caller's timeout is enforced and announced in the right unit",
  "A synchronous asyncio call waits for its result at most the given number of milliseconds, the blocking client waits for response bytes at most that plus one second, and the request frame announces that timeout in milliseconds. The asyncio server waits for the result of a two-way service run at most the announced milliseconds, and without limit when the announced timeout is not positive.",
  ["inputs"], "for every timeout value, integral or not",
  "Tests use generous timeouts that never expire.",
  [AC, CC, AL, RQ], [("timeout_ms / 1000", AC + ", " + AL), ("deadline", CC)])

p("C25", "A pool never exceeds its connection cap",
  "The number of connections a pool has created and not disposed of never exceeds its maximum, for every interleaving of threads using the pool: the capacity check and the count update are one atomic step, and every other count update is atomic too.",
  ["schedules"], "for every interleaving of threads on one pool",
  "The test is single-threaded.",
  [KP], [("_lock around num_connections", KP)], state=[("num_connections", "live connections", KP)])

p("C26", "Pooled connections are conserved",
  "Every connection created by or taken from an open pool ends up, on every path including errors, in exactly one place: handed to the caller, back in the pool, or closed and no longer counted. The blocking client likewise returns or discards the connection of each call exactly once, however the call ends, and discards it when the call failed.",
  ["fault_sequences", "histories"], "for every outcome of every pool operation and every call",
  "Leaks do not fail a test, and tests do not inject failures.",
  [KP, KM, CC], [("get_conn/put_conn bookkeeping", KP), ("put_conn after use", CC)])

p("C27", "The recently-used container is thread-safe, bounded, and disposes once",
  "Every access to the shared entries of the recently-used container happens under its lock; it never keeps more than its maximum number of entries once an insertion is complete; and each value that leaves it by eviction, replacement, deletion or clearing is passed to the dispose function exactly once, least recently used first.",
  ["schedules", "histories"], "for every interleaving and every sequence of operations",
  "The tests insert three keys from one thread.",
  [KL], [("lock / dispose_func", KL)])

p("C28", "One pool per address",
  "All users of a pool manager asking for the same address get the same pool: looking a pool up and creating it is one atomic step. Calls of the blocking client go through a pool manager that outlives the call, so that connections to one address share one pool.",
  ["schedules", "histories"], "for every interleaving of lookups and every sequence of calls",
  "The test looks pools up from one thread; it never looks at the client's use of them.",
  [KM, CC], [("pools.lock around get-or-create", KM), ("Client._get_pool", CC)])

p("C29", "Dead pooled connections are not handed out",
  "A connection taken out of a pool for a caller is either new or has been checked for having been dropped or having unread bytes since it was pooled; one that fails the check is closed and replaced, never handed out. Any error while checking counts as dropped.",
  ["fault_sequences"], "for every pooled connection and every state it may be in",
  "The test mocks the liveness check away.",
  [KP, KU, "mysockpool/_wait.py"], [("is_connection_dropped", KU), ("get_conn", KP)])

p("C30", "Mesh operations succeed only on a success answer",
  "Registering the application, publishing, unpublishing, subscribing and unsubscribing each return normally only if the mesh answered HTTP 200 with success being true, and raise otherwise. The application is registered at most once per mesh client, and counts as registered only after the mesh accepted it, also when several threads start it.",
  ["inputs", "schedules", "fault_sequences"], "for every answer of the mesh and every interleaving of starters",
  "Tests mock only the success answer.",
  [MC], [("_post result checks", MC), ("startup under lock", MC)])

p("C31", "Service addresses follow the mesh's answer and are never overwritten",
  "Subscribing maps an interface to the mesh address only after the mesh accepted the subscription, unsubscribing forgets it only after the mesh accepted that, and one failing interface does not affect the others. An address present in the service map cannot be replaced by assignment, and an interface without an entry is called through the mesh address, one with only a host on the default port.",
  ["histories", "fault_sequences"], "for every sequence of subscriptions and every answer of the mesh",
  "Tests have no mesh and look up one unknown interface.",
  [CB, ID, "anthunder/__init__.py"], [("subscribe/unsubscribe/_get_address", CB), ("ImmutableValueDict.__setitem__", ID)])

p("C32", "Publishing covers every registered interface",
  "Publishing a listener announces each interface registered on it exactly once, with that interface's name, the listener's port and application name, and unpublishing revokes each registered interface exactly once; without a mesh both do nothing.",
  ["inputs", "configurations"], "for every set of registered interfaces",
  "No test publishes through a listener.",
  [BL, MC], [("publish/unpublish", BL)])

p("C33", "Trace context crosses the wire intact",
  "Every baggage item of the caller's span context - trace id, rpc id and custom items - is put into the request header by both clients, and the servers rebuild from that header a span context with the same items and no others; injecting into a carrier and extracting from it agree likewise.",
  ["inputs"], "for every span context",
  "Tests inject and extract with a fixed three-item carrier and never check what a service receives.",
  [TT, TC, TX, SH, AL, SL], [("prefix on both sides", TT + ", " + TX), ("build_header", SH)])

p("C34", "Derived spans stay in the trace",
  "A span started as a child or follow-up of another carries the same trace id and every other baggage item of the original, a new rpc id derived from the original's according to the kind of reference, and leaves the original's baggage unchanged. Every reference kind the tracing API offers is supported.",
  ["histories"], "for every span context and every way of deriving from it",
  "Tests derive from contexts with only the two standard items.",
  [TC, TT, TR, TH], [("SpanContext.__init__", TC), ("start_span reference selection", TT)])

p("C35", "Spans derived from one parent get distinct rpc ids",
  "The rpc ids given to the children of a span, and to the follow-ups of those children, are pairwise distinct within the process, in whatever order and from however many threads they are derived.",
  ["schedules", "histories"], "for every sequence and interleaving of derivations from one parent",
  "The tests derive from a single thread in one order.",
  [TR], [("_child_count", TR)], state=[("_child_count", "last child number given", TR)])

p("C36", "Spans record what they are given and finish on errors",
  "A started span has the operation name, every tag and the start time it was started with. Used as a context manager it is finished when the block ends, normally or with an exception, and it never hides the exception.",
  ["inputs", "fault_sequences"], "for every set of tags and every way a block can end",
  "Tests start spans without tags, and do not look at the finish time after an exception.",
  [TT, TS, TH], [("start_span", TT), ("__exit__", TS)])

p("C37", "Request ids are unique, 31-bit and cheap",
  "Each new request frame gets a request id that fits the signed 4-byte field and is non-negative; ids drawn concurrently from any number of threads are distinct until the whole range has been used, and drawing ids does not use memory that grows with their number.",
  ["schedules", "histories"], "for every number of drawn ids and every interleaving of drawing threads",
  "The test draws a single id.",
  [RI, RQ, HB], [("RequestId iterator", RI), ("next(RequestId) at every request constructor", RQ + ", " + HB)])

p("C38", "A request runs its service method once, with its own input",
  "In both servers a dispatched request creates one service object from the factory registered under the requested interface, with the request's own trace context and the registered extra arguments, and calls the requested method at most once with exactly the request's content; a successful reply carries what that call returned.",
  ["inputs", "schedules"], "for every request and registration",
  "Tests register one service and call one method.",
  [AL, SL], [("handle_request", AL + ", " + SL), ("register_interface", AL + ", " + SL)])

# ---- properties the family cannot decide (not_applicable)
p("N01", "Trace ids are globally unique",
  "Two trace ids generated anywhere in a deployment are different.",
  ["schedules", "configurations"], "for every pair of hosts, processes and instants",
  "The test compares two ids drawn in a row.",
  [TI], [("TraceId()", TI)])
p("N02", "Throughput and latency under load",
  "The asyncio server keeps serving all connections with bounded latency for any number of clients.",
  ["schedules", "configurations"], "for every load",
  "The tests have ten calls.",
  [AL, "performance_aio.py"], [("ThreadPoolExecutor(max_workers=30)", AL)])
p("N03", "Interoperability with a real SOFA mesh and Java peers",
  "A Java SOFABolt peer or MOSN sidecar accepts every frame and every mesh request the library sends.",
  ["programs", "configurations"], "for every peer implementation and version",
  "No such peer is available to the tests.",
  [PB, MC], [("wire format", PB), ("mesh JSON", MC)])
p("N04", "Shutdown leaves no thread, task or socket behind",
  "After a listener is shut down its port, threads, tasks and connections are all released.",
  ["histories", "schedules"], "for every state a listener can be shut down in",
  "The tests end the process right after shutting down.",
  [AL, SL], [("shutdown", AL + ", " + SL)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
