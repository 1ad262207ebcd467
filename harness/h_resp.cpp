// Responses of the server connection: framing (C05), persistence (C06), lifecycle of notifications (C07), composition at any size (C13).
#include "reqoracle.h"
#include "HttpHelpers.h"
using namespace Pillow;
static const HttpHeaderCollection noHeaders;
static QByteArray request(int k) {
	switch (k) {
	case 0: return "GET /r HTTP/1.1\r\n\r\n";
	case 1: return "HEAD /r HTTP/1.1\r\n\r\n";
	case 2: return "GET /r HTTP/1.0\r\n\r\n";
	case 3: return "GET /r HTTP/1.0\r\nConnection: keep-alive\r\n\r\n";
	case 4: return "POST /r HTTP/1.1\r\nConnection: close\r\nContent-Length: 2\r\n\r\nhi";
	case 5: return "HEAD /r HTTP/1.0\r\nConnection: Keep-Alive\r\n\r\n";
	case 6: return "PUT /r HTTP/1.1\r\nContent-Length: 3\r\nConnection: keep-alive\r\n\r\nabc";
	case 7: return "GET /r HTTP/1.2\r\nConnection: keep-alive\r\n\r\n";
	case 8: return "GET /r HTTP/1.1\r\nConnection: " + symText(5, "conn") + "\r\n\r\n";
	case 9: return "GET /r HTTP/1.0\r\nConnection: k" + symText(3, "conn") + "-aliv" + symText(1, "end") + "\r\n\r\n";
	case 10: return "GET /r HTTP/" + symText(3, "version") + "\r\n\r\n";
	case 11: return "GET /r HTTP/1.1\r\nC" + symText(3, "name") + "ection: close\r\n\r\n";
	case 12: return "HEAD /r HTTP/1.1\r\nConnection: close\r\n\r\n";
	case 13: return symText(4, "method") + " /r HTTP/1.1\r\n\r\n";
	}
	return QByteArray();
}
// One response header the application may choose to give. what: kind of header
static bool headerOf(int what, HttpHeaderCollection &h, int slot) {
	const char *v = slot ? "v2" : "v1", *n = slot ? "n2" : "n1";
	switch (what) {
	case 0: return false;
	case 1: h << HttpHeader(QByteArray("X-") + symText(2, n, ":"), symText(2, v)); break;
	case 2: h << HttpHeader(QByteArray("Content-Length"), symText(1, v)); break;
	case 3: h << HttpHeader(QByteArray("content-LENGTH"), symText(2, v)); break;
	case 4: h << HttpHeader(QByteArray("Content-Type"), symText(2, v)); break;
	case 5: h << HttpHeader(QByteArray("Connection"), QByteArray("cl") + symText(1, v) + "se"); break;
	case 6: h << HttpHeader(QByteArray("connection"), QByteArray("keep-") + symText(1, v) + "live"); break;
	case 7: h << HttpHeader(QByteArray("Transfer-Encoding"), QByteArray("c") + symText(1, v) + "unked"); break;
	case 8: h << HttpHeader(QByteArray("TRANSFER-encoding"), QByteArray("gzi") + symText(1, v)); break;
	case 9: h << HttpHeader(QByteArray("Content-") + symText(2, n, ":") + "pe", QByteArray("a/b")); break;
	case 10: h << HttpHeader(QByteArray(symText(1, n, ":")), QByteArray()); break;
	case 11: h << HttpHeader(QByteArray("Connecti") + symText(2, n, ":"), QByteArray("close")); break;
	case 12: h << HttpHeader(QByteArray("Content-Lengt") + symText(1, n, ":"), QByteArray("3")); break;
	case 13: h << HttpHeader(QByteArray("Transfer-Encodin") + symText(1, n, ":"), QByteArray("chunked")); break;
	}
	return true;
}
static bool special(const QByteArray &n) { return ciEqual(n, "content-length") || ciEqual(n, "content-type") || ciEqual(n, "connection") || ciEqual(n, "transfer-encoding"); }
static const HttpHeader *lastOf(const HttpHeaderCollection &h, const char *n, int *count) { const HttpHeader *r = 0; *count = 0; for (int i = 0; i < h.size(); ++i) if (ciEqual(h.at(i).first, n)) { r = &h.at(i); ++*count; } return r; }
static bool knownStatus(int c) { static const unsigned short codes[] = { 100, 101, 200, 201, 202, 203, 204, 205, 206, 300, 301, 302, 303, 304, 305, 307, 400, 401, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 500, 501, 502, 503, 504, 505, 102, 103, 207, 208, 226, 308, 402, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 506, 507, 508, 510, 511 }; for (size_t i = 0; i < sizeof(codes) / sizeof(*codes); ++i) if (codes[i] == c) return true; return false; }
// What the application asks for, worked out from the HTTP rules.
struct Plan {
	Req q; bool head, http11; long length; bool lengthGray; bool chunked; bool appClose; bool clientKeeps, keeps; int countCL, countTE, countConn, countCT;
	Plan(const QByteArray &req, const HttpHeaderCollection &h, long implied) : lengthGray(false) {
		q = readRequest(req, 0); head = same(q.method, "HEAD"); http11 = same(q.version, "HTTP/1.1"); const HttpHeader *cl = lastOf(h, "content-length", &countCL), *te = lastOf(h, "transfer-encoding", &countTE), *co = lastOf(h, "connection", &countConn); lastOf(h, "content-type", &countCT);
		length = implied; if (cl) { const QByteArray &v = cl->second; length = v.isEmpty() ? -1 : 0; bool digits = !v.isEmpty(); for (int i = 0; i < v.size(); ++i) { char c = v.at(i); if (c == '+' || c == ' ') lengthGray = true; if (c < '0' || c > '9') { digits = false; break; } length = length * 10 + (c - '0'); } if (!digits) length = -1; if (v.size() == 2 && v.at(0) == '-' && v.at(1) == '0') lengthGray = true; }
		chunked = length < 0 && http11 && te && ciEqual(te->second, "chunked"); appClose = co && ciEqual(co->second, "close"); clientKeeps = q.keepsAlive(); keeps = clientKeeps && !appClose && (length >= 0 || chunked);
	}
};
// param 0: 1 message, 2 persistence ; 1: request ; 2: first response header ; 3: second ; 4: how the content is written ; 5: pieces
extern "C" void resp() {
	int what = int(sx_param(0)), rq = int(sx_param(1)), way = int(sx_param(4)); QByteArray req = request(rq); HttpHeaderCollection h; headerOf(int(sx_param(2)), h, 0); headerOf(int(sx_param(3)), h, 1);
	bool msg = (what & 1) != 0, per = (what & 2) != 0; int status = 200; if (way >= 4 && way <= 5) { status = int(sx_int(-2, 1002, "status")); way -= 4; }
	int n = way == 0 || way == 1 ? int(sx_concrete(sx_int(0, 3, "size"))) : 0; QByteArray content = symBytes(n, "content");
	Plan p(req, h, way == 0 ? n : -1); sx_assume(p.q.st == Req::Good); sx_assume(!p.lengthGray); sx_assume(p.countCL <= 1 && p.countTE <= 1 && p.countConn <= 1 && p.countCT <= 1);
	Rec a; QByteArray body; bool finished = false, until = false; a.dev.slow = per;
	a.onReady = [&](HttpConnection *s) {
		if (a.ready > 1) { s->writeResponse(200, noHeaders, "next"); return; }
		long len = p.length; bool done = p.head || len == 0; auto piece = [&](const QByteArray &b) { if (!done && (len < 0 || body.size() + b.size() <= len)) { body += b; if (len >= 0 && body.size() == len) done = true; } s->writeContent(b); };
		if (way == 0) { s->writeResponse(status, h, content); if (!done && (len < 0 || content.size() <= len)) { body = content; if (len >= 0 && body.size() == len) done = true; } }
		else if (way == 1) { s->writeHeaders(status, h); piece(content); int m = int(sx_concrete(sx_int(0, 2, "size2"))); piece(symBytes(m, "content2")); piece("abc"); }
		else if (way == 2) { s->writeHeaders(status, h); piece("0123456789abcdefXYZ"); s->endContent(); if (!done && len < 0) { done = true; until = !p.chunked; } piece("after"); s->endContent(); }
		else if (way == 3) { s->writeHeaders(status, h); }
		finished = done; };
	a.dev.feed(req); QByteArray out = a.dev.out; sx_out("out", out.constData(), out.size()); sx_out_int("completed", a.completed); sx_out_int("closed", a.closed); sx_assert(a.ready == 1, "delivered");
	Msg m = readResponse(out, 0, p.head); sx_assert(m.ok, "the response is one well-formed message"); int code = m.status();
	if (msg) {
		sx_assert(code >= 100, "the status line has a three-digit code"); sx_assert(code == status || (code == 500 && !knownStatus(status)), "the status line has the code given, or 500 for an unknown one"); if (code != status) sx_cover("unknown status");
		sx_assert(starts(m.startLine, "HTTP/"), "a status line"); 
		// the application's headers, in order, unchanged
		int j = 0; for (int i = 0; i < m.headers.size(); ++i) if (!special(m.headers.at(i).first)) { while (j < h.size() && special(h.at(j).first)) ++j; sx_assert(j < h.size() && same(h.at(j).first, m.headers.at(i).first) && same(h.at(j).second, m.headers.at(i).second), "the application's headers are sent unchanged and in order"); ++j; }
		while (j < h.size() && special(h.at(j).first)) ++j; sx_assert(j == h.size(), "all the application's headers are sent");
		if (p.countCT) { int c; const HttpHeader *ct = lastOf(h, "content-type", &c); sx_assert(m.count("content-type") == 1 && same(m.value("content-type"), ct->second), "the application's content type is sent"); }
		sx_assert(m.count("content-length") <= 1, "the length header appears at most once"); sx_assert(m.count("content-length") == (p.length >= 0 ? 1 : 0), "the length is announced exactly when known"); if (p.length >= 0) sx_assert(m.length == p.length, "the length announced is exact");
		sx_assert(m.chunked == p.chunked, "chunks are announced exactly to HTTP/1.1 clients when asked for and no length is known"); if (p.chunked) sx_cover("chunked"); if (p.length > 0) sx_cover("length"); if (m.untilClose) sx_cover("until close");
		bool whole = code != 204 && code != 304 && code >= 200; if (!p.head && whole) sx_assert(same(m.body, body), "the body is exactly what was written, within the length announced");
		if (p.head) { sx_cover("head"); sx_assert(m.used == out.size(), "no body is written for HEAD"); }
		if (finished && whole) sx_assert(m.complete && m.used == out.size(), "a finished response is complete and nothing follows it");
		if (!finished && p.chunked && !p.head) sx_assert(!m.complete, "chunks are not ended before the end of the content");
		sx_assert(a.completed == (finished ? 1 : 0), "completed exactly when all of the response is written");
		(void)until;
	}
	if (per) {
		bool headOpen = p.head && p.length < 0 && !p.chunked; // how long such an answer is needs no announcing, and either choice delimits it
		bool saysClose = ciEqual(m.value("connection"), "close"), saysKeep = ciEqual(m.value("connection"), "keep-alive"); sx_assert(m.count("connection") <= 1, "one Connection header at most"); bool announced = saysClose ? false : saysKeep ? true : p.http11;
		if (!headOpen) sx_assert(announced == p.keeps, "persistence is announced as the client's version and header, the application and the framing demand"); else if (announced) sx_assert(p.clientKeeps && !p.appClose, "persistence is not announced against the client's or the application's will");
		if (announced) sx_cover("announces keep-alive"); else sx_cover("announces close");
		if (finished) {
			if (!announced) {
				sx_assert(a.closed == 0 && a.dev.isOpen(), "not closed before all output is written"); qint64 left = a.dev.unsent; sx_assume(left > 0); a.dev.drain(1); sx_assert(a.closed == (left == 1 ? 1 : 0), "not closed before all output is written"); a.dev.drain(left - 1);
				sx_assert(a.closed == 1 && !a.dev.isOpen(), "closed once all output is written, as announced"); sx_assert(same(a.dev.out, out), "nothing is written after the last response");
			} else {
				a.dev.drain(a.dev.unsent); sx_assert(a.closed == 0 && a.dev.isOpen(), "stays open, as announced"); a.dev.feed("GET /next HTTP/1.1\r\n\r\n"); sx_assert(a.ready == 2, "the next request is served"); Msg m2 = readResponse(a.dev.out, out.size(), false); sx_assert(m2.ok && same(m2.body, "next"), "the next request is answered");
			}
		} else sx_assert(a.closed == 0, "not closed before the response is finished");
	}
}
// Large responses. param: which size varies, what was composed before
extern "C" void resp_size() {
	int kind = int(sx_param(0)), prev = int(sx_param(1)), lo = int(sx_param(2)), hi = int(sx_param(3)); int size = int(sx_concrete(sx_int(lo, hi, "size")));
	HttpHeaderCollection h; QByteArray content, version = "HTTP/1.1";
	if (kind == 0) h << HttpHeader("X-Long", QByteArray(size, 'x'));
	else if (kind == 1) { for (int i = 0; i < size; ++i) h << HttpHeader(QByteArray("K") + num(i), QByteArray("value ") + num(i * 7)); }
	else if (kind == 2) { content = QByteArray(size, 'c'); h << HttpHeader("A", "b"); }
	else if (kind == 3) version = QByteArray("HTTP/") + QByteArray(size, '1') + ".1";
	else if (kind == 4) { h << HttpHeader(QByteArray(size, 'N'), QByteArray(3, 'v')) << HttpHeader("Content-Type", QByteArray(size, 't')); content = "body"; }
	QByteArray mark = symBytes(1, "mark"); for (int i = 0; i < h.size(); ++i) if (!h.at(i).second.isEmpty()) { char c = mark.at(0); sx_assume(c != '\r' && c != '\n' && c != ' '); h[i].second[0] = c; } if (!content.isEmpty()) content[content.size() - 1] = mark.at(0);
	Rec a; int base = 0; bool mine = false; a.onReady = [&](HttpConnection *s) { if (mine) { base = a.dev.out.size(); s->writeResponse(200, h, content); return; } HttpHeaderCollection b; if (prev == 1) b << HttpHeader("P", QByteArray(900, 'p')); else if (prev == 2) b << HttpHeader("P", QByteArray(5000, 'p')); else if (prev == 3) b << HttpHeader("P", QByteArray(4040, 'p')); s->writeResponse(404, b, "prev"); };
	if (prev) a.dev.feed("GET /prev HTTP/1.1\r\n\r\n"); mine = true; a.dev.feed(QByteArray("GET /mine ") + version + "\r\nConnection: keep-alive\r\n\r\n"); sx_assert(a.ready == (prev ? 2 : 1), "delivered");
	QByteArray out = a.dev.out.mid(base); sx_out("size", num(out.size()).constData(), num(out.size()).size()); Msg m = readResponse(out, 0, false); sx_assert(m.ok && m.complete && m.used == out.size(), "one well-formed message"); sx_assert(starts(m.startLine, (version + " 200 ").constData()), "status line is version, code and reason");
	int j = 0, own = 0; for (int i = 0; i < m.headers.size(); ++i) { bool app = j < h.size() && same(h.at(j).first, m.headers.at(i).first); if (app) { sx_assert(same(h.at(j).second, m.headers.at(i).second), "header values are exact at any size"); ++j; } else { ++own; sx_assert(special(m.headers.at(i).first), "no other header"); } }
	if (kind == 4) { sx_assert(j >= 1 && same(m.value("content-type"), h.at(1).second), "header values are exact at any size"); } else sx_assert(j == h.size(), "every header is there"); sx_assert(same(m.body, content), "the body is exact at any size"); sx_assert(m.length == content.size(), "exact length");
	int total = m.startLine.size() + 2 + 2 + content.size(); for (int i = 0; i < m.headers.size(); ++i) total += m.headers.at(i).first.size() + 2 + m.headers.at(i).second.size() + 2; sx_assert(total == out.size(), "nothing but the parts is written");
}
// Chunks of any size. params: sizes from, to, a second chunk, version
extern "C" void resp_chunks() {
	int size = int(sx_concrete(sx_int(int(sx_param(0)), int(sx_param(1)), "size"))), more = int(sx_param(2)); QByteArray first(size, 'c'), second(more, 'd'); if (size) first[size - 1] = symBytes(1, "mark").at(0); HttpHeaderCollection h; h << HttpHeader("Transfer-Encoding", sx_param(3) ? "Chunked" : "chunked");
	Rec a; a.onReady = [&](HttpConnection *s) { s->writeHeaders(200, h); s->writeContent(first); if (more) s->writeContent(second); s->endContent(); }; a.dev.feed("GET / HTTP/1.1\r\n\r\n"); Msg m = readResponse(a.dev.out, 0, false); sx_out("size", num(a.dev.out.size()).constData(), num(a.dev.out.size()).size());
	sx_assert(m.ok && m.complete && m.used == a.dev.out.size() && m.chunked, "one well-formed chunked message"); sx_assert(same(m.body, first + second), "the body is exact at any size"); sx_assert(a.completed == 1, "completed"); sx_cover("chunked");
}
// Large declared lengths: the number sent is the number given.
extern "C" void resp_length() {
	int kind = int(sx_param(0)); QByteArray v; if (kind == 0) v = "214748" + symBytes(4, "digits"); else if (kind == 1) v = "4294967" + symBytes(3, "digits"); else if (kind == 2) v = symBytes(2, "digits") + "000000000"; else if (kind == 3) v = "9223372036854775" + symBytes(3, "digits"); else if (kind == 4) v = "-" + symBytes(2, "digits"); else if (kind == 5) v = symBytes(2, "digits") + symBytes(2, "more");
	for (int i = kind == 4 ? 1 : 0; i < v.size(); ++i) sx_assume(v.at(i) >= '0' && v.at(i) <= '9'); sx_assume(kind == 4 || v.at(0) != '0');
	HttpHeaderCollection h; h << HttpHeader(QByteArray("Content-Length"), v); Rec a; a.onReady = [&](HttpConnection *s) { s->writeHeaders(200, h); s->writeContent("x"); }; a.dev.feed("GET / HTTP/1.1\r\n\r\n"); Msg m = readHead(a.dev.out, 0); sx_out("out", a.dev.out.constData(), a.dev.out.size());
	sx_assert(m.ok, "well formed"); QByteArray got = m.value("content-length"); bool over = kind == 3 && (v.size() > 19 || (v.size() == 19 && !(memcmp(v.constData(), "9223372036854775807", 19) <= 0)));
	if (kind == 4) { sx_cover("negative"); sx_assert(m.count("content-length") == 0 || decValue(got) == 0, "a negative length is never announced"); }
	else if (over) { sx_cover("beyond 64 bits"); sx_assert(m.count("content-length") == 0, "a length that is not a 64-bit number is not announced"); }
	else { sx_cover("exact"); sx_assert(m.count("content-length") == 1 && same(got, v), "the length announced is exactly the one given"); }
	int end = a.dev.out.size(); if (m.count("content-length") && decValue(got) == 0) return; sx_assert(end > 0 && a.dev.out.at(end - 1) == 'x' && a.dev.out.at(end - 2) == '\n', "content within the announced length is written");
}
// The connection's life under any sequence of calls and events, compared with the documented lifecycle.
struct Life { // what should happen
	enum S { Recv, Ready, Sending, Done, Flushing, Closed } st; QByteArray buf, log; Req q; long len, sent; bool chunked, keep, slow; long wrote; int onReady, onCompleted, onClosed, depth;
	Life() : st(Recv), len(-1), sent(0), chunked(false), keep(true), slow(false), wrote(0), onReady(0), onCompleted(0), onClosed(0), depth(0) {}
	void react(int r) { switch (r) { case 1: response("in"); break; case 2: close(); break; case 3: lost(); break; case 4: headers(3, false); break; case 5: content(1); break; case 6: end(); break; case 7: headers(3, false); content(1); break; case 8: headers(-1, true); end(); close(); break; } }
	void event(char c, int r) { log.append(c); react(r); }
	void pump() { if (st != Recv) return; Req r = readRequest(buf, 0); if (r.st == Req::Good) { buf = buf.mid(r.used); q = r; st = Ready; event('R', onReady); } else if (r.st != Req::Incomplete) { wrote++; flush(); } }
	void feed(const QByteArray &b) { if (st == Closed) return; buf += b; pump(); }
	void headers(long l, bool ch) { if (st != Ready) return; wrote++; st = Sending; len = l; sent = 0; bool h11 = same(q.version, "HTTP/1.1"); chunked = ch && h11 && l < 0; keep = q.keepsAlive() && (l >= 0 || chunked); if (l == 0 || same(q.method, "HEAD")) complete(); }
	void content(long n) { if (st != Sending || len == 0 || n == 0 || (len > 0 && sent + n > len)) return; wrote++; sent += n; if (sent == len) complete(); }
	void end() { if (st != Sending || len >= 0) return; if (chunked) wrote++; else keep = false; complete(); }
	void response(const char *c) { if (st != Ready) return; bool head = same(q.method, "HEAD"); headers(long(strlen(c)), false); if (!head) content(long(strlen(c))); }
	void complete() { st = Done; event('C', onCompleted); if (st != Done) return; if (keep) { st = Recv; pump(); } else flush(); }
	void flush() { st = Flushing; if (!slow || !unsent()) closed(); }
	std::function<bool()> unsent;
	void drained() { if (st == Flushing) closed(); }
	void close() { if (st != Closed) closed(); }
	void lost() { if (st != Closed) closed(); }
	void closed() { st = Closed; event('X', onClosed); }
};
static void realReact(Rec &a, HttpConnection *s, int r) {
	HttpHeaderCollection three, ch; three << HttpHeader("Content-Length", "3"); ch << HttpHeader("Transfer-Encoding", "chunked");
	switch (r) { case 1: s->writeResponse(200, noHeaders, "in"); break; case 2: s->close(); break; case 3: a.dev.close(); break; case 4: s->writeHeaders(200, three); break; case 5: s->writeContent("x"); break; case 6: s->endContent(); break; case 7: s->writeHeaders(200, three); s->writeContent("x"); break; case 8: s->writeHeaders(200, ch); s->endContent(); s->close(); break; }
}
// params: what is called from requestReady, requestCompleted and closed; steps; a device that takes its time; first step
extern "C" void life() {
	Life m; m.onReady = int(sx_param(0)); m.onCompleted = int(sx_param(1)); m.onClosed = int(sx_param(2)); int steps = int(sx_param(3)); m.slow = sx_param(4) != 0; int start = int(sx_param(5));
	Rec a; a.dev.slow = m.slow; QByteArray ev; a.onReady = [&](HttpConnection *s) { ev.append('R'); realReact(a, s, m.onReady); }; a.onCompleted = [&](HttpConnection *s) { ev.append('C'); realReact(a, s, m.onCompleted); }; a.onClosed = [&](HttpConnection *s) { ev.append('X'); realReact(a, s, m.onClosed); };
	m.unsent = [&]() { return a.dev.unsent > 0; };
	HttpHeaderCollection three, ch; three << HttpHeader("Content-Length", "3"); ch << HttpHeader("Transfer-Encoding", "chunked"); HttpConnection *s = &a.c; static const char *const feeds[] = { "GET /a HTTP/1.1\r\n\r\n", "POST /b HTTP/1.1\r\nContent-Length: 3\r\n\r\nAB", "C", "BAD\1", "HEAD /h HTTP/1.1\r\n\r\nGET /z HTTP/1.0\r\n\r\n" };
	for (int i = 0; i < steps; ++i) {
		int op = i == 0 && start >= 0 ? start : int(sx_concrete(sx_int(0, 14, "op"))); int before = a.dev.out.size(), w0 = int(m.wrote); bool wasClosed = m.st == Life::Closed; 
		switch (op) {
		case 0: case 1: case 2: case 3: case 4: if (a.dev.isOpen()) { a.dev.feed(feeds[op]); m.feed(feeds[op]); } break;
		case 5: s->writeHeaders(200, three); m.headers(3, false); break;
		case 6: s->writeHeaders(200, ch); m.headers(-1, true); break;
		case 7: s->writeHeaders(200); m.headers(-1, false); break;
		case 8: s->writeContent("xyz"); m.content(3); break;
		case 9: s->writeContent("x"); m.content(1); break;
		case 10: s->endContent(); m.end(); break;
		case 11: s->writeResponse(200, noHeaders, "ok"); m.response("ok"); break;
		case 12: s->close(); m.close(); break;
		case 13: a.dev.close(); m.lost(); break;
		case 14: { bool had = a.dev.unsent > 0; a.dev.drain(a.dev.unsent); if (had) m.drained(); break; }
		}
		sx_assert(ev.size() <= m.log.size() || !starts(ev, m.log.constData()) || ev.at(m.log.size()) != 'X', "the connection is not closed early or twice"); sx_assert(same(ev, m.log), "notifications come exactly once, in lifecycle order");
		sx_assert((a.dev.out.size() > before) == (m.wrote > w0), "calls in the wrong state write nothing, others write"); if (wasClosed) sx_assert(a.dev.out.size() == before, "nothing is written once closed");
		sx_assert((s->state() == HttpConnection::Closed) == (m.st == Life::Closed), "closed exactly when the lifecycle says");
	}
	int n[3] = { 0, 0, 0 }; for (int i = 0; i < ev.size(); ++i) { if (ev.at(i) == 'R') { ++n[0]; sx_assert(n[0] == n[1] + 1, "no request before the previous one is completed"); } else if (ev.at(i) == 'C') { ++n[1]; sx_assert(n[1] == n[0], "completed once per request"); } else { ++n[2]; sx_assert(i == ev.size() - 1, "nothing is announced after closed"); } }
	if (n[0] > 1) sx_cover("two requests"); if (n[2]) sx_cover("closed"); if (n[1]) sx_cover("completed"); sx_out("events", ev.constData(), ev.size()); sx_out_int("out", a.dev.out.size());
}
// Losing the peer while output is flushed (a real socket reports it from within flush).
extern "C" void life_socket() {
	int how = int(sx_param(0)); QByteArray ev; SxTcpSocket sock; HttpConnection c; sock.slow = true; sock.sxConnected();
	QObject::connect(&c, &HttpConnection::requestReady, [&](HttpConnection *s) { ev.append('R'); s->writeResponse(200, noHeaders, "x"); }); QObject::connect(&c, &HttpConnection::requestCompleted, [&](HttpConnection *) { ev.append('C'); if (how == 1) sock.sxRemoteClosed(); }); QObject::connect(&c, &HttpConnection::closed, [&](HttpConnection *) { ev.append('X'); });
	if (how == 2) sock.failOnFlush = true; c.initialize(&sock, &sock); int cut = int(sx_concrete(sx_int(0, 18, "cut"))); QByteArray r = "GET / HTTP/1.1\r\n\r\n"; sock.sxFeed(r.left(cut)); sock.sxFeed(r.mid(cut) + r);
	sx_out("events", ev.constData(), ev.size()); if (how == 0) sx_assert(same(ev, "RCRC"), "two requests served"); else sx_assert(same(ev, "RCX"), "losing the peer from a notification ends the connection once");
}
