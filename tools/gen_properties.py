#!/usr/bin/env python3
# Source of properties.jsonl (one call per property). Run: python3 tools/gen_properties.py
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["pillowcore/" + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": "pillowcore/" + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": "pillowcore/" + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

HC = "HttpConnection.cpp"; CL = "HttpClient.cpp"; PARS = "parser/parser.c"; HP = "parser/http_parser.c"

prop("C01", "Request delivery does not depend on how the network cuts the bytes",
     "Whatever way the bytes a client sends to the server are cut into reads, the server delivers the same requests with the same fields and bodies, in the same order, and writes back the same bytes, as when they arrive in one read. This includes error replies and data of a following request that arrives in the same read.",
     ["schedules", "inputs"], "every segmentation of every byte stream, and every byte stream",
     "Tests feed whole requests or a few hand-picked cuts; cut positions inside the request line, header names, CRLF pairs or body are a combinatorial space.",
     [HC, PARS], [("incremental parse with carried offset, buffer kept across reads", HC + ": processInput"), ("resumable request grammar", PARS)],
     [("request buffer and parse offset", "bytes received so far for the request being read", HC)], ["requests delivered", "bytes written"])
prop("C02", "Delivered request fields are exactly the bytes received",
     "For every accepted request, the method, URI, path, query string, fragment, version, ordered header names and values and body handed to the application are exactly the corresponding pieces of the received bytes. They are NUL-terminated where a C string is expected, and they do not change until the request is completed.",
     ["inputs"], "every accepted request: every URI shape (no query, empty query, fragment, absolute, asterisk), header set and body",
     "Fields alias one receive buffer that is NUL-terminated in place and may be reallocated; tests compare a few fixed requests.",
     [HC, PARS, "ByteArrayHelpers.h"], [("fields set as views into the buffer, terminated in place", HC + ": transitionToSendingHeaders, setupRequestHeaders"), ("field offsets recorded by the grammar", PARS)],
     [], ["request accessors of the connection"])
prop("C03", "Bad or oversized requests are refused once, closed, never delivered",
     "A request whose head is not valid HTTP or is larger than the header limit gets exactly one 400 reply, one with a negative body length gets 400, and one with an unparsable or too large body length gets 413; the reply announces that the connection closes, the connection is then closed, and no part of that request or of anything after it reaches the application. A well-formed request within the limits is never refused.",
     ["inputs", "schedules"], "every byte sequence sent as a request, every declared body length, at any point of a connection's life",
     "Tests try a handful of malformed requests on a fresh connection.",
     [HC, PARS], [("error and limit checks after each parse step", HC + ": processInput, transitionToReceivingContent, writeRequestErrorResponse")],
     [], ["bytes written", "ready and closed notifications"])
prop("C04", "Requests on one connection are answered in order and share nothing",
     "On a persistent connection every request, pipelined or not, is delivered only after the previous response is complete, in the order received, and is handled exactly as if it were the first on a fresh connection. No header, parameter, body byte, decoded field or response setting of an earlier request is visible in a later one.",
     ["histories", "inputs", "schedules"], "every sequence of requests and response styles on one connection, including a connection object reused for another client",
     "State is deliberately reused between requests for speed; tests exercise few orders of few request shapes.",
     [HC], [("reset of request and response state between requests, leftover bytes kept", HC + ": transitionToCompleted, transitionToReceivingHeaders, initialize")],
     [("request headers, params, content; response length, chunking, keep-alive flags", "per-request state living in a reused object", HC)], ["request accessors", "bytes written"])
prop("C05", "Every response is one well-formed, self-delimiting HTTP message",
     "For any status code, headers and content an application supplies, the bytes written are a status line with a three-digit code, the application's headers unchanged, then a body that matches the framing announced: exactly the announced number of bytes, or correct chunks ended by the last-chunk mark (only to HTTP/1.1 clients), or data up to connection close. No more body bytes than announced and no body for HEAD are ever written, and the length header appears at most once and is exact.",
     ["inputs", "histories", "programs"], "every status, header set, content size and sequence of write calls, for every request kind",
     "Tests check fixed strings for fixed calls; sizes, header combinations and misuse sequences are unbounded.",
     [HC, "ByteArrayHelpers.h", "HttpHelpers.cpp"], [("header composition and content-length accounting", HC + ": writeHeaders, writeContent, endContent")],
     [("response length and bytes sent", "what has been announced and written", HC)], ["bytes written"])
prop("C06", "Connection persistence is decided and announced consistently",
     "The connection stays open after a response exactly when the client's version and Connection header allow it, the application did not ask to close, and the response is self-delimiting; otherwise it closes once all output is written. The Connection header sent to the client always matches what the server then does.",
     ["inputs", "histories"], "every combination of request version and Connection header, response headers, length knowledge and request method",
     "The decision mixes five inputs; tests cover a few rows of the table.",
     [HC], [("keep-alive negotiation", HC + ": writeHeaders, transitionToSendingContent, endContent")], [], ["bytes written", "connection state afterwards"])
prop("C07", "A connection's notifications follow its lifecycle, whatever is called when",
     "Each request is announced ready once, is announced completed at most once and only after its response is fully written, and each connection is announced closed exactly once, after which it writes nothing. Calls made in the wrong state write nothing and change nothing, and closing the connection or losing the peer from inside any notification is safe.",
     ["histories", "programs", "schedules"], "every order of application calls, device events and re-entrant calls from notifications",
     "Re-entrancy and out-of-order calls are a space of programs; tests follow ordinary order.",
     [HC], [("state machine guards", HC + ": transitionTo*"), ("device signal wiring", HC + ": initialize")], [("connection state", "where the exchange stands", HC)], ["notifications", "bytes written"])
prop("C08", "100-continue is sent exactly when asked for and acceptable",
     "When an accepted request with a body carries an Expect: 100-continue header (any letter case), exactly one interim 100 response is written before the request is delivered and before any final response bytes; in every other case none is written. Refused requests get no interim response.",
     ["inputs", "schedules"], "every request head, body length and segmentation", "Tests send one such request in one way.",
     [HC], [("expect check after content-length validation", HC + ": transitionToReceivingContent")], [], ["bytes written"])
prop("C09", "Query parameters are parsed, looked up and overridden exactly",
     "The request's parameters are the '&'-separated pieces of the query string in order (nothing after a final '&' is no piece), each split at its first '=' and percent-decoded on both sides (a piece without '=' has an empty value); lookup by name ignores case and returns the first match. Setting a parameter replaces the first match in place or appends, leaving all others untouched.",
     ["inputs", "histories"], "every query string, name and sequence of overrides", "Tests parse a few well-behaved query strings.",
     [HC, "ByteArrayHelpers.h"], [("lazy parse of the query string", HC + ": requestParams"), ("lookup and override", HC + ": requestParamValue, setRequestParam")], [], ["parameter accessors"])
prop("C10", "Percent-decoding is exact and stays within its input",
     "Decoding replaces every complete '%XY' with two hexadecimal digits by that byte, copies every other byte unchanged in order, never reads or writes outside the given text and never depends on text length; the decoded request fields are exactly the decoded raw ones.",
     ["inputs"], "every byte string, of any length", "Length-dependent buffers and truncated escapes at the end are not sampled.",
     ["ByteArrayHelpers.h", HC], [("in-place decoding", "ByteArrayHelpers.h: percentDecodeInPlace, percentDecode")], [], ["decoded accessors"])
prop("C11", "Every number written on the wire is its exact value",
     "Every integer the library writes (content length, chunk size, port, year) appears as its exact decimal or hexadecimal representation, without leading zeros or truncation, over the whole range of its type.",
     ["inputs"], "every 32- and 64-bit integer value", "Tests use small numbers.",
     ["ByteArrayHelpers.h", HC, CL], [("digit generation and in-place reversal", "ByteArrayHelpers.h: appendNumber"), ("callers choose the integer width", HC + ": writeHeaders")], [], ["bytes written"])
prop("C12", "Header names match by ASCII case-insensitive equality, and only that",
     "Looking up a header by name finds precisely the headers whose name has the same length and the same bytes up to ASCII letter case: the first for single lookups, all in order for multiple lookups, and a name-and-value test succeeds exactly when some header matches both. Building a header from 'Name: value' text splits at the first colon and drops only the spaces after it; appending collections keeps every header in order.",
     ["inputs"], "every pair of names and every collection", "Bytes just outside the letter ranges and non-ASCII bytes are not sampled.",
     ["HttpHeader.cpp", "HttpHeader.h", "ByteArrayHelpers.h"], [("comparison loops", "ByteArrayHelpers.h: asciiEqualsCaseInsensitive"), ("collection lookups", "HttpHeader.cpp")], [], ["lookup results"])
prop("C13", "Composed output equals the concatenation of its parts at any size",
     "Whatever the sizes of the status line, headers and body and whatever was composed before on the same connection or client, the bytes sent are exactly the concatenation of the parts: composing never writes outside its buffer, loses, repeats or reorders bytes.",
     ["inputs", "histories"], "every sequence of part sizes relative to the buffer capacity", "The fast path writes into spare capacity; tests rarely reach its exact boundary.",
     ["private/ByteArray.h", HC, CL], [("capacity-checked fast appends", "private/ByteArray.h"), ("buffer reuse between messages", HC + ": transitionToSendingContent")], [], ["bytes written", "memory accesses"])
prop("C14", "The file handler never serves anything outside its folder",
     "For every request path, encoded or not, with any dot segments or symbolic links, a file is opened and served only if its real location is inside the configured folder; otherwise the request is left to the next handler and nothing is written.",
     ["inputs", "configurations"], "every request path over every layout of folders, links and sibling names", "Containment is about all paths; tests try a few.",
     ["HttpHandler.cpp"], [("canonical path containment test", "HttpHandler.cpp: HttpHandlerFile::handleRequest")], [], ["files opened", "bytes written"])
prop("C15", "A served file is delivered whole and exact however the socket drains",
     "A served file arrives with status 200, its exact length and exactly its bytes, whatever its size relative to the buffer and however the output drains; HEAD gets the same head without body, a matching entity tag gets 304 without body and any other gets the file. Closing the connection midway stops the transfer, and nothing of one file ever appears in a later response.",
     ["inputs", "schedules", "histories"], "every file size, buffer size and drain schedule, with disconnects and pipelined requests", "Tests drain quickly with two file sizes.",
     ["HttpHandler.cpp"], [("whole-file or incremental sending", "HttpHandler.cpp: HttpHandlerFile, HttpHandlerFileTransfer")], [], ["bytes written"])
prop("C16", "Handlers are tried in order and only the first taker answers",
     "A stack offers a request to its handlers in order and stops at the first that takes it, reporting whether any did; handlers after it are not called. The fixed handler answers every request with its configured status and content, the 404 handler with 404 naming the path, and the function handler calls its function once if there is one.",
     ["configurations", "inputs"], "every arrangement of handlers, decisions and configured values", "Tests use a few arrangements.",
     ["HttpHandler.cpp"], [("dispatch loop", "HttpHandler.cpp: HttpHandlerStack::handleRequest")], [], ["handler calls", "bytes written"])
prop("C17", "The access log has exactly one entry per finished request",
     "With logging on, every completed request yields exactly one line that carries its own method, URI, version, status and length, whatever the number of requests and connections and their interleaving; trace mode adds exactly one begin line per request and one close line per closed connection. Destroying connections or the log at any time is safe.",
     ["histories", "schedules"], "every interleaving of requests over several reused connections", "Tests log one or two requests.",
     ["HttpHandler.cpp"], [("per-connection timer map, connected once", "HttpHandler.cpp: HttpHandlerLog")], [], ["lines written to the log device"])
prop("C18", "The router invokes exactly the first matching route",
     "A request is given to the first registered route whose path pattern matches the whole decoded path and whose method is empty or equals the request's (the _method parameter overriding it only when enabled), and to no other. If only paths match, the answer is 405 listing the matched routes' methods, if nothing matches it is 404, or in both cases the request is passed on when so configured.",
     ["inputs", "configurations"], "every set of routes, settings, method and path", "Tests try a few routes with a few paths.",
     ["HttpHandlerSimpleRouter.cpp"], [("route matching loop", "HttpHandlerSimpleRouter.cpp: handleRequest"), ("pattern translation", "HttpHandlerSimpleRouter.cpp: pathToRegExp")], [], ["handlers invoked", "bytes written"])
prop("C19", "Route parameters are bound to the right path pieces",
     "When a route matches, each ':name' is bound to the non-empty word it covers and each '*name' to the possibly empty rest it covers, in whatever order they appear in the pattern, so that putting the values back into the pattern gives the decoded path. They override query parameters of the same name and leave the others alone.",
     ["inputs", "configurations"], "every pattern mixing both kinds and every matching path", "Tests use patterns with one kind or one order.",
     ["HttpHandlerSimpleRouter.cpp"], [("parameter name collection", "HttpHandlerSimpleRouter.cpp: pathToRegExp")], [], ["request parameters seen by the target"])
prop("C20", "The proxy relays the upstream response faithfully or signals failure",
     "The proxy's client receives the upstream's status, headers and body bytes exactly, in order, however they trickle in; if upstream fails before any response head the client gets exactly one 503, and if it fails or ends later the client's connection is ended so the client never waits forever. Either side disappearing at any moment is safe and ends the exchange.",
     ["schedules", "fault_sequences", "inputs"], "every trickle of upstream events and every failure point", "Tests use well-behaved upstream servers.",
     ["HttpHandlerProxy.cpp"], [("pipe between reply and connection", "HttpHandlerProxy.cpp: HttpHandlerProxyPipe")], [], ["bytes written to the client", "connection state"])
prop("C21", "The proxy forwards the request as received",
     "The upstream request has the same method, path, query, headers and body as the one received, addressed to the configured host; without a configured target the request is not taken.",
     ["inputs"], "every request", "Tests forward a few fixed requests.",
     ["HttpHandlerProxy.cpp"], [("request translation", "HttpHandlerProxy.cpp: handleRequest, createProxiedReply")], [], ["the outgoing request"])
prop("C22", "A client request is written exactly as specified",
     "Each request the client sends is the method, the path with its query, the version, a Host header naming host and non-default port, the caller's headers in order, a correct length header when there is a body, and the body, with nothing left over from earlier requests; an empty path is sent as '/'.",
     ["inputs", "histories"], "every method, URL, header set and body size, in any sequence", "Tests send small fixed requests.",
     [CL], [("request serialisation", CL + ": HttpRequestWriter::write, sendRequest")], [], ["bytes written"])
prop("C23", "Response parsing is exact and independent of segmentation",
     "However a server's response bytes are cut, the client obtains the same status, ordered headers and body: the headers are the exact names and values, and the body is the bytes delimited by the length header, the chunks or the end of the connection. Malformed responses are reported as errors, never as a complete response.",
     ["inputs", "schedules"], "every response byte stream and every segmentation", "Tests inject a few fixed responses with a few cuts.",
     [CL, HP], [("header assembly from callbacks", CL + ": HttpResponseParser"), ("resumable response grammar", HP)], [], ["parser results"])
prop("C24", "Every client request finishes exactly once with the right outcome",
     "Each accepted request is followed by exactly one finished notification, with no error only if a complete response was received, whatever mix of data, disconnects, errors, aborts and calls from notifications occurs; interim 100 responses, however many and however cut, are hidden. A request made from a notification is carried out after the current one, and one made while another is pending is refused without effect.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of server bytes, socket events and application calls, including from notifications", "Tests follow a few orders.",
     [CL], [("pending flag and deferred request", CL + ": request, device_readyRead, abort, messageComplete, device_error")], [], ["client notifications and accessors"])
prop("C25", "A client's responses never leak into one another",
     "Whatever happened to the previous request on the same client (completion, abort at any byte, error, decoded content), the next response has exactly its own status, headers and body.",
     ["histories", "fault_sequences"], "every way and moment to end the previous response", "Tests abort at one or two moments.",
     [CL], [("state reset between responses", CL + ": clear, messageBegin, messageComplete, abort")], [], ["client accessors"])
prop("C26", "Redirects are recognised and followed to the right place",
     "A response is a redirect exactly for status 300, 301, 302, 303 and 307, its target is the Location value whatever the letter case of the name, and following it issues one request with the same method, headers and body to that target, resolved against the current address when relative.",
     ["inputs"], "every status, location text and current address", "Tests follow one absolute redirect.",
     [CL], [("redirect detection and follow-up", CL + ": redirected, redirectionLocation, followRedirection")], [], ["follow-up request"])
prop("C27", "Compressed bodies are decoded for any segmentation, else passed through",
     "A body sent with gzip content encoding is delivered as exactly the decompressor's output for the whole body, however it is cut and however large its expansion; other encodings are delivered untouched, and a corrupt stream is passed through from the failing piece on.",
     ["inputs", "schedules"], "every segmentation and every output amount per step", "Tests decode one small body.",
     [CL], [("streaming decode loop", CL + ": GunzipContentTransformer")], [], ["client content"])
prop("C28", "Pooled server connections are exclusive, clean and reused safely",
     "At any time each accepted socket is served by its own connection object; an object goes back to the pool only once its connection is closed, the pool never exceeds its limit or holds duplicates, and a reused object serves its next client exactly like a new one, with the old socket released.",
     ["histories", "schedules"], "every interleaving of accepts, requests and closes", "Tests open a few connections.",
     ["HttpServer.cpp", HC], [("reserve list", "HttpServer.cpp: takeConnection, putConnection, connection_closed")], [("reserved connections", "idle connection objects", "HttpServer.cpp")], ["requests delivered per client", "object identity"])
prop("C29", "Parsers are memory-safe and cut-invariant on arbitrary bytes",
     "For any bytes from the network in any parser state, neither the request nor the response parser reads or writes outside the given text, fails an internal check, or reports a position outside it, and handling two pieces one after the other leaves the same state as handling them joined.",
     ["inputs", "schedules"], "every byte sequence from every reachable parser state", "Arbitrary bytes in arbitrary states are beyond samples.",
     [PARS, HP], [("generated request grammar", PARS + ": thin_http_parser_execute"), ("response grammar", HP + ": http_parser_execute")], [], ["parser state", "memory accesses"])
prop("C30", "The network access manager reply mirrors the response",
     "A reply obtained through the access manager yields the response's status, headers, redirect target and body bytes exactly and in order whatever read sizes are used, finishes once, and reports an error exactly when the request failed; a client is reused for another request only after it finished, and only for the same server.",
     ["inputs", "histories", "schedules"], "every response, read pattern and sequence of requests", "Tests use small replies read at once.",
     [CL], [("reply adapter and client reuse map", CL + ": NetworkReply, NetworkAccessManager")], [], ["reply accessors"])
prop("C31", "Status, media type and date texts are right for every input",
     "Every known status code maps to its own number and reason, and no other code has one; a file name's media type depends only on its ending, ignoring case; and any moment is rendered as the RFC date of that moment in GMT with zero-padded fields.",
     ["inputs"], "every integer status, file name and calendar date-time", "Tests check a few values.",
     ["HttpHelpers.cpp"], [("tables", "HttpHelpers.cpp")], [], ["returned texts"])
prop("C32", "Script handlers run the configured script for each request",
     "A script handler calls the script's handler function with the request and returns its decision, reports script errors with a 500 reply, and reloads the script when its file changes.",
     ["inputs", "histories"], "every script and every file-change history", "Tests run fixed scripts.",
     ["HttpHandlerQtScript.cpp"], [("script engine bridge", "HttpHandlerQtScript.cpp")], [], ["bytes written"])
prop("C33", "The secure server encrypts before any request byte is handled",
     "Each socket accepted by the secure server is given the configured key and certificate and put into server encryption before a request can be read from it, and is then served exactly like a plain connection; a socket that cannot be adopted is released and serves nothing.",
     ["configurations", "histories"], "every configuration and outcome of adopting a socket", "Tests cannot observe the order of set-up for every outcome.",
     ["HttpsServer.cpp"], [("socket adoption", "HttpsServer.cpp: incomingConnection")], [], ["calls on the secure socket"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
