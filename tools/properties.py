#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=observe, hook_needed=None)))

p("C01", "Matching handlers run in registration order until one stops",
  "For every request the server runs exactly those handlers whose registered method (or all-methods registration) and path match the request, plus every path-less middleware, in the order in which they were registered, and stops after the first one that answers Stop. A handler registered for another method or another path never runs, each registration runs at most once per request, and a registration whose path is rejected leaves no trace.",
  ["inputs", "programs", "histories"], "every sequence of registrations (all kinds of registration, literal and variable segments, repeated and overlapping paths, Stop/Next) and every request",
  "The repository's router tests only count entries in the tables; no test ever dispatches a request through several registrations, and the space of registration sequences is combinatorial.",
  ["src/router.rs", "src/path.rs", "src/server.rs", "src/middlewares/mod.rs"],
  [("per-method path trees merged by registration index", "src/router.rs Router::run"), ("tree lookup", "src/path.rs PathNode::dfs/get")],
  ["which handlers were entered, in which order, for a request sent to a listening server"])
p("C02", "URL variables bind exactly the matching path segments",
  "When a handler registered with variable segments (`:name`) runs, it sees for each of its variables the text of the request segment at that position, and no other bindings; handlers with literal paths and middlewares see none. The bindings a handler sees are those of its own registered path, whatever other registrations match the same request or ran before.",
  ["inputs", "programs"], "every set of registered patterns and every request path",
  "Tests match a single pattern against three paths; overlapping patterns with different variable names and the order in which they run are not covered.",
  ["src/path.rs", "src/router.rs"], [("bindings computed from the registration's own path", "src/path.rs PathBuf::check_matches, PathNode::get"), ("bindings replaced before every handler", "src/router.rs Router::run")],
  ["the variables a running handler is given"])
p("C03", "Mounting a router equals registering its routes at that point",
  "An application that mounts routers (with nested order of registration before and after the mount) behaves for every request exactly as one in which the mounted router's routes and middlewares had been registered directly, in the router's own order, at the moment of mounting. This includes registrations with equal paths on both sides, several mounts and empty routers.",
  ["programs", "inputs", "histories"], "every interleaving of direct registrations, registrations on routers, and mounts",
  "The append test checks table sizes only; the relative order of handlers after a mount is never observed.",
  ["src/router.rs", "src/path.rs", "src/server.rs"], [("index offsetting", "src/router.rs Router::append"), ("owned tree iteration and re-insertion", "src/path.rs OwnedPathNodeIterator, Extend, FromIterator")],
  ["sequence of handlers run, their variables and the response"])
p("C04", "Paths are normalised and can never climb above the root",
  "Request paths and registered paths are normalised alike: empty and `.` segments disappear, `..` removes the preceding segment, and spellings that normalise to the same segments select the same handlers. A path that would climb above the root is refused — 400 for a request without running any handler, an error (and no registration) for a registration — and no handler ever sees a `.`/`..`/empty segment in the request path.",
  ["inputs"], "every path string, as registration and as request target",
  "Two example strings are tested; the traversal rule must hold for every combination of separators and dot segments.",
  ["src/path.rs", "src/request.rs", "src/router.rs"], [("segment normalisation", "src/path.rs PathBuf::parse")], ["status code, handlers run, path segments seen by the handler, result of the registration call"])
p("C05", "How the bytes are cut into packets never changes the outcome",
  "For a given byte stream from the client, the handlers run, everything they see of the request, and the response are the same however the stream is segmented into reads and however long the pauses between the segments. In particular cuts inside the blank line that ends the head, inside the body, at read-buffer boundaries and byte-by-byte delivery change nothing.",
  ["schedules", "inputs"], "every way of cutting a request into segments and every arrival pattern of the segments",
  "No test feeds a request over a socket in more than one piece; the number of segmentations is exponential.",
  ["octane_http/src/http1x/mod.rs", "src/request.rs", "src/server.rs"], [("head accumulation until CRLFCRLF", "octane_http/src/http1x/mod.rs Http1xReader::new"), ("body remainder + rest", "src/request.rs Request::from_raw")], ["request seen by the handler, response bytes"])
p("C06", "The body a handler sees is exactly Content-Length bytes",
  "A handler runs only once the whole declared body has arrived, and then sees exactly the first Content-Length bytes after the head, byte for byte, whatever they are (CRLFs, NULs, non-UTF-8, further requests); without Content-Length the body is empty. A body cut short by the client, or a Content-Length that is not a decimal number or that contradicts another, is answered with 400 and runs no handler.",
  ["inputs", "schedules", "fault_sequences"], "every declared length, every number of bytes actually sent, every content, every place where the client stops",
  "Nothing in the suite sends a body to the server.",
  ["src/request.rs", "octane_http/src/http1x/mod.rs", "src/server.rs"], [("Content-Length framing", "src/request.rs Request::from_raw")], ["body seen by the handler, when the handler runs, status code"])
p("C07", "Handlers see exactly the request headers that were sent",
  "Every header field of a well-formed request is visible to the handler under its lower-cased name with its value stripped of surrounding blanks, repeated fields are joined with `, ` in order of arrival, and the list of raw headers has every field in order with the original spelling. A head with a malformed field (no colon, empty or non-token name, control character in a value, not UTF-8) is answered with 400 and runs no handler.",
  ["inputs"], "every sequence of header lines, names, values and lengths of the head",
  "Six fixed header blocks are tested, none through the server.",
  ["src/request.rs", "src/util.rs", "src/constants.rs", "octane_http/src/http1x/mod.rs", "src/path.rs"], [("field parsing", "src/request.rs Header::parse, Headers::parse"), ("line splitting", "src/util.rs Spliterator")], ["headers seen by the handler, status code"])
p("C08", "Any byte stream gets one well-formed answer; none can crash a server task",
  "Whatever bytes a client sends, and wherever it stops, the server neither panics nor loops nor aborts: as soon as the client has sent a complete request or closed its side, it gets exactly one complete, well-formed HTTP response — 4xx/5xx unless the bytes were a valid request — and the connection is closed. If the client resets the connection the server just drops it.",
  ["inputs", "fault_sequences"], "every byte stream, every truncation, every point of a client close or reset",
  "Malformed input is unit-tested only in pieces that return None or panic on purpose; what the server does with them is untested.",
  ["src/server.rs", "src/request.rs", "octane_http/src/http1x/mod.rs", "src/error.rs", "src/cookie.rs"], [("error answers", "src/error.rs declare_error!, src/server.rs Octane::serve")], ["bytes received by the client, connection closed, panics, process alive"])
p("C09", "Concurrent and earlier connections never influence a response",
  "The handlers run and the response produced for a connection depend only on that connection's bytes and the application: they are the same alone, after any history of other connections, and under any interleaving with other connections' arrivals, reads, partial writes, disconnects and handler panics, on one or several worker threads.",
  ["schedules", "histories"], "every interleaving of a small number of concurrent connections and every short history of earlier ones",
  "No test opens two connections.",
  ["src/server.rs", "src/server_builder.rs", "src/responder.rs", "src/request.rs", "src/router.rs"], [("one task and one Response per connection, shared state immutable behind Arc", "src/server.rs Octane::listen/serve, src/server_builder.rs ServerBuilder::listen")], ["response bytes and handler observations per connection"])
p("C10", "Responses are correctly framed and carry what the handlers set last",
  "For every sequence of response operations the handlers perform, the client receives one response whose status line, header fields and body are those set last: header names are case-insensitive, each field set appears once, Content-Type is the one chosen or text/html, and Content-Length, present exactly once, equals the number of body bytes. A request whose handlers set no body is answered with 404.",
  ["histories", "programs"], "every sequence of response API calls spread over one or several handlers",
  "Three response tests set at most a status and a version; combinations and overwriting are not covered.",
  ["src/responder.rs", "src/server.rs", "src/error.rs"], [("header table and serialisation", "src/responder.rs Response::{set,send,default_headers,headers,get_data}"), ("404 fallback", "src/server.rs Octane::serve")], ["response bytes"])
p("C11", "Every cookie set is sent as its own Set-Cookie field",
  "If handlers set cookies, the response has exactly one Set-Cookie field per cookie set, in the order set, each with that cookie's name, value and attributes, and is otherwise unchanged; without cookies there is none. The fields stay well-formed for any number of cookies and headers.",
  ["histories", "inputs"], "every list of cookies with every combination of attributes, together with every other header",
  "One cookie is serialised on its own in the tests; never a whole response with cookies.",
  ["src/responder.rs", "src/cookie.rs"], [("cookie serialisation", "src/responder.rs Response::headers, src/cookie.rs Cookie::serialise")], ["Set-Cookie fields of the response, rest of the response"])
p("C12", "Request cookies are parsed completely and bad ones cannot hurt",
  "For every Cookie header the handler sees, in order, exactly the cookies of its well-formed `name=value` pairs separated by `; `, also when values contain `=`; pairs that are not valid cookies are skipped and never fail the request or hide the valid ones. Without a Cookie header there are none.",
  ["inputs"], "every Cookie header value",
  "One well-formed two-cookie header is tested.",
  ["src/cookie.rs", "src/request.rs"], [("cookie parsing", "src/cookie.rs Cookie::parse, src/request.rs Request::parse")], ["cookies seen by the handler, status code"])
p("C13", "The whole response is delivered whatever the socket accepts at a time",
  "If the client keeps reading, it receives the complete response, every byte once and in order, followed by the end of the connection, for every pattern of partial writes and would-block answers of its socket; the bytes do not depend on the pattern. If a write fails the server sends nothing more on that connection, and at any time what was delivered is a prefix of the response.",
  ["schedules", "fault_sequences"], "every sequence of socket answers (n bytes accepted, would block, error) and every body size",
  "No test has a slow or failing reader.",
  ["src/server.rs", "src/responder.rs", "src/error.rs"], [("write_all + copy", "src/server.rs Octane::send")], ["bytes received by the client"])
p("C14", "Sending a file delivers exactly the file with its type and length",
  "A response produced by sending a file carries exactly the file's content with a matching Content-Length, for every file size and however the file reads are split, and the Content-Type of its extension (case-insensitively; text/plain for unknown ones). A path that does not exist or is not a regular file is reported to the handler as an error and leaves the response as it was. When another process changes the file while it is sent, the client still gets no more bytes than the announced length.",
  ["inputs", "schedules", "histories"], "every file size and content, every extension, every pattern of partial file reads and socket writes, every earlier/later response operation",
  "No test sends a file.",
  ["src/responder.rs", "src/file_handler.rs", "src/util.rs"], [("file reader", "src/util.rs AsyncReader::poll_read"), ("mime table", "src/file_handler.rs FileHandler::mime_type"), ("file body", "src/responder.rs Response::send_file")], ["response bytes, result of the send_file call"])
p("C15", "The query string is split off and decoded into the right pairs",
  "The part of the request target after the first `?` is the query: it never takes part in routing, and a handler asking for it gets exactly its `&`-separated pairs, split at the first `=`, percent-decoded as UTF-8 (an incomplete escape stands for itself), the last of equal names winning, empty names skipped. A target without `?` has an empty query.",
  ["inputs"], "every query string",
  "The decoder is tested with fixed strings, and only detached from requests.",
  ["src/query.rs", "src/request.rs"], [("query parsing", "src/query.rs parse_query, unescape_hex; src/request.rs Request::get_query")], ["query seen by the handler, handlers run"])
p("C16", "Extended queries build the right strings, arrays and objects",
  "With extended queries, `name=v` gives a string, repeated `name[]=v` an array of all values in order, `name[key]=v` an object whose last value per key wins; a pair that clashes with the kind a name already has as array or object is ignored, other pairs are unaffected. Values are percent-decoded as for plain queries.",
  ["inputs"], "every sequence of query pairs",
  "One query with one value of each kind is tested.",
  ["src/query.rs", "src/request.rs"], [("extended parsing", "src/query.rs parse_extended_query")], ["extended query seen by the handler"])
p("C17", "The Date header is the right HTTP date for every instant",
  "For every clock reading from 1970 to 9999 the Date header of a response is the IMF-fixdate (`Sun, 06 Nov 1994 08:49:37 GMT`) of that second, including leap days, century years and the right day of the week.",
  ["inputs"], "every second from 1970-01-01 to 9999-12-31",
  "Tests check some fixed stamps' fields; the calendar has corner cases (centuries, 400-year cycles, February 29th) that need all days.",
  ["src/time.rs", "src/constants.rs", "src/responder.rs"], [("civil-from-days computation and formatting", "src/time.rs Time::{time,format}")], ["Date header of a response under a controlled clock"])
p("C18", "Method, version and Host rules decide before any handler runs",
  "Handlers (including middlewares) run exactly for requests whose request line has the form `METHOD target HTTP/x` with one of the nine known methods and, for HTTP/1.1, a Host header; the handler sees that method and version. An unknown method is answered with 501, a malformed request line or an HTTP/1.1 request without Host with 400, a request no handler answered with 404; HTTP/1.0 requests need no header at all.",
  ["inputs"], "every request line and presence/absence of headers",
  "RequestLine::parse is tested on seven strings; the answers of the server are not tested.",
  ["src/request.rs", "src/http/mod.rs", "src/http/http11.rs", "src/http/http10.rs", "src/server.rs"], [("request-line parsing and validation", "src/request.rs RequestLine::parse, src/http Http::validate, src/server.rs serve")], ["status code, handlers run, method and version seen"])
p("C19", "The server keeps serving after failed accepts, panics and bad clients",
  "A connection attempt that fails in accept, a client that resets or sends garbage, a handler that panics, or a client that never finishes never ends or blocks the server: later and concurrent well-behaved connections are served as usual. listen() does not return because of them.",
  ["fault_sequences", "schedules", "histories"], "every sequence of accept errors, misbehaving connections and handler panics before/around a good connection",
  "No test injects a fault.",
  ["src/server_builder.rs", "src/server.rs"], [("accept loop, task per connection", "src/server_builder.rs ServerBuilder::listen")], ["the good connection's response, listen() still pending"])
p("C20", "Status codes are written with their number and reason",
  "For every status code, including custom ones, the status line of the response is `HTTP/<version> <number> <REASON>` with the number and upper-cased reason of the code and the version chosen (1.1 by default); every named code has its IANA number and distinct codes have distinct numbers. The status chosen never changes which body or headers are sent (statuses that forbid a body, 1xx/204/205/304, may omit it).",
  ["inputs", "programs"], "all status codes × HTTP versions × bodies",
  "Two codes are tested.",
  ["octane_http/src/lib.rs", "octane_macros/src/status.rs", "src/responder.rs"], [("status table", "octane_http/src/lib.rs status_codes!"), ("status line", "src/responder.rs status_line")], ["status line of the response"])
p("C21", "Configuration calls take effect in order, the last one wins",
  "After any sequence of configuration calls the keep-alive time, TLS port, key and certificate are those set by the last call that concerns them; taking over a whole configuration replaces all of them, taking over TLS settings replaces key and certificate, and no call changes anything else or any route.",
  ["histories", "configurations"], "every sequence of configuration calls",
  "No test touches the configuration.",
  ["src/config.rs", "src/server.rs"], [("configuration setters", "src/config.rs OctaneConfig, Ssl; src/server.rs impl Config for Octane, with_config")], ["public settings of the application"])
p("C22", "Memory use is bounded by the bytes a client really sent",
  "While reading a request the server's memory use stays within a constant factor of the bytes actually received (plus a constant), whatever lengths the request announces; a huge or unparsable announced length can neither exhaust memory nor abort the server, and memory is released when the connection ends.",
  ["inputs", "histories"], "every announced length and every amount of data sent, over long histories of connections",
  "No test sends a body or measures memory.",
  ["src/request.rs", "octane_http/src/http1x/mod.rs", "src/server.rs"], [("incremental reading", "src/request.rs Request::from_raw")], ["heap used by the server thread per connection and at quiescence"])
p("C23", "Over TLS the server answers exactly as it does in the clear",
  "For every request, segmentation into TLS records and packets, and partial-write pattern, the answer decrypted by the client and everything the handlers see are the same as over a plain connection; failed handshakes, plaintext on the TLS port, accept errors and unusable keys or certificates never disturb other connections or the plain port.",
  ["inputs", "schedules", "fault_sequences"], "requests × segmentations × faults during handshake",
  "No test uses TLS.",
  ["src/server_builder.rs", "src/tls/mod.rs", "src/tls/rustls.rs", "src/tls/openssl.rs", "src/server.rs"], [("TLS accept loop", "src/server_builder.rs listen_ssl")], ["decrypted response bytes"])
p("C24", "A response to HEAD has the headers of the response but no body",
  "The answer to a HEAD request ends with the blank line after its header fields, whatever body the handlers set and also for error answers, and its header fields, including Content-Length, are those the same response would have with its body.",
  ["inputs", "histories"], "every response operation sequence in a HEAD handler and every error answer",
  "No test sends HEAD.",
  ["src/server.rs", "src/error.rs", "src/responder.rs"], [("body suppressed for HEAD", "src/server.rs Octane::serve/send")], ["response bytes"])
p("C25", "Strings given to the response API can never break out of their field",
  "Whatever strings handlers pass as header names, header values, cookie names, cookie values, charset, type, redirect target or reason, the client sees exactly the fields and the one body that were set: no string can add a field, end the head early or start a second response.",
  ["inputs", "histories"], "every string over an alphabet with CR, LF, NUL, colon and blanks, in every position of the API",
  "No test uses a control character.",
  ["src/responder.rs", "src/cookie.rs"], [("serialisation of the head", "src/responder.rs Response::{status_line,headers,get_data}")], ["response bytes parsed by a strict client"])
p("C26", "The JSON derives round-trip every value and reject wrong shapes",
  "For a struct with derived ToJSON and FromJSON, whatever its field types (also with commas, arrows or qualified paths), visibility, attributes, raw or non-ASCII names, number of fields, type parameters, bounds and where clauses, converting to JSON yields an object with exactly its fields under their own names (for a tuple struct: an array of its fields in order), or none if a field has no JSON, and converting back yields an equal value; a JSON value of another kind, with a missing, additional or renamed field or a field of the wrong type yields none.",
  ["programs", "inputs"], "struct declarations up to a bound x values x damaged JSON values",
  "The derives are not used in any test.",
  ["octane_macros/src/json.rs", "octane_macros/src/util.rs"], [("derive code generation", "octane_macros/src/json.rs")], ["converted values"])
p("C27", "octane::main and path! keep the annotated code's meaning",
  "A function annotated with octane::main or octane::test runs its body exactly once on a runtime that can do network I/O and spawn tasks, and returns the body's result unchanged, for every signature the attribute accepts; path! expands to the crate directory followed by the given text and fails to compile if that does not exist.",
  ["programs"], "function signatures and bodies up to a bound",
  "The attribute is only used on argument-less unit tests.",
  ["octane_macros/src/lib.rs", "octane_macros/src/stream_parser.rs"], [("token-stream rewriting", "octane_macros/src/stream_parser.rs")], ["result of the annotated function"])
p("C28", "listen() reports set-up failures and can rebind after a restart",
  "If any step of opening the listening socket fails, listen() returns that failure instead of panicking or hanging; otherwise it accepts connections on the requested port on all interfaces, non-blocking, with address reuse in effect so that a restarted server can bind again at once. The start callback is called exactly once, and only the requested port is opened.",
  ["fault_sequences", "configurations"], "every set-up step failing with every errno, every port",
  "No test starts a server.",
  ["src/server_builder.rs", "src/server.rs"], [("socket set-up", "src/server_builder.rs ServerBuilder::new")], ["result of listen(), state of the simulated sockets"])
p("C29", "json() sends the JSON of the structure, or leaves the response alone",
  "A response produced by json() has the JSON text of the structure as its body, Content-Type application/json and the matching Content-Length, for every structure and whatever was set before; later operations override it as usual. A structure that cannot be written as JSON is reported to the handler as an error and leaves the response as it was.",
  ["inputs", "histories"], "structures up to a bound, every character, sizes; operation sequences around json()",
  "No test enables the json feature.",
  ["src/responder.rs"], [("serialisation into the body", "src/responder.rs Response::json")], ["the response a client receives", "the result of json()"])
p("C30", "Leaving out an optional feature changes nothing else",
  "For every combination of the optional features faithful, cookies, url_variables, raw_headers, extended_queries and json, the server compiles, and every guarantee that is not about a feature left out (which handlers run and in which order, what they see of the request line, header fields, body, query, cookies and variables, which requests are refused and how, the status line, header fields, body and files of the answer) holds exactly as it does with all of them. Without faithful, only what that feature adds goes: the refusal of malformed header names and values and of request lines with other than three parts or another protocol, and the dropping of empty query parameters.",
  ["configurations", "inputs"], "combinations of features x the requests, applications and socket behaviours of the other properties",
  "The tests run with the default features, with none, and with each TLS back end, and then only as samples; no other combination is ever built.",
  ["src/request.rs", "src/path.rs", "src/router.rs", "src/responder.rs", "src/query.rs", "src/lib.rs", "Cargo.toml"], [("cfg alternatives", "src/request.rs Headers::parse, src/path.rs PathNode::dfs, src/router.rs Router::run, src/responder.rs Response::headers")], ["everything the other properties observe"])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
