// Handlers that only look at a request or answer it at once (C16) and the access log (C17).
#include "common.h"
#include "HttpHandler.h"
using namespace Pillow;
struct Step : HttpHandler { // answers or passes on, and says that it was asked
	int id; bool takes; QByteArray *order; HttpConnection **seen;
	Step(int i, bool t, QByteArray *o, HttpConnection **s, QObject *p) : HttpHandler(p), id(i), takes(t), order(o), seen(s) {}
	bool handleRequest(HttpConnection *c) { order->append(char('0' + id)); *seen = c; if (takes) c->writeResponse(200, HttpHeaderCollection(), QByteArray(1, char('0' + id))); return takes; }
};
static QByteArray answer(Rec &a, int *status) { Msg m = readResponse(a.dev.out, 0, false); sx_assert(m.ok && m.complete && m.used == a.dev.out.size(), "exactly one response"); *status = m.status(); return m.body; }
// A stack of up to n children of any kind. params: number of children, a nested stack at
extern "C" void handler_stack() {
	int n = int(sx_param(0)), nest = int(sx_param(1)); QByteArray order, want; HttpConnection *seen = 0; bool taken = false; int taker = -1; HttpHandlerStack *top = new HttpHandlerStack; HttpHandlerStack *in = top;
	for (int i = 0; i < n; ++i) {
		if (i == nest) in = new HttpHandlerStack(top);
		int kind = int(sx_concrete(sx_int(0, 6, "kind")));
		QObject *p = in;
		if (kind == 0) new QObject(p); // no handler
		else if (kind == 1 || kind == 2) { new Step(i, kind == 2, &order, &seen, p); if (!taken) { want.append(char('0' + i)); if (kind == 2) { taken = true; taker = i; } } }
		else if (kind == 3) { new HttpHandlerFixed(204, QByteArray(), p); if (!taken) { taken = true; taker = 100; } }
		else if (kind == 4) { new HttpHandlerFunction(p); }
		else if (kind == 5) { new HttpHandlerFunction([i, &order](HttpConnection *c) { order.append(char('a' + i)); c->writeResponse(201); }, p); if (!taken) { want.append(char('a' + i)); taken = true; taker = 200; } }
		else { new HttpHandlerStack(p); }
	}
	Rec a; bool r = false; int again = 0; a.onReady = [&](HttpConnection *c) { ++again; r = top->handleRequest(c); }; a.dev.feed("GET /x HTTP/1.1\r\n\r\n");
	sx_out("order", order.constData(), order.size()); sx_out_int("taken", r); sx_assert(same(order, want), "the handlers are asked in order, up to the first that takes the request and no further"); sx_assert(r == taken, "the stack says whether one took it");
	if (taken) { sx_cover("taken"); int st; QByteArray b = answer(a, &st); sx_assert(taker == 100 ? st == 204 : taker == 200 ? st == 201 : st == 200 && b.size() == 1 && b.at(0) == '0' + taker, "the answer is the taker's"); } else { sx_cover("not taken"); sx_assert(a.dev.out.isEmpty() && a.completed == 0, "nobody answers"); }
	if (seen) sx_assert(seen == &a.c, "asked with the request's connection");
	delete top;
}
// params: kind, symbolic bytes
extern "C" void handler_one() {
	int k = int(sx_param(0)), n = int(sx_param(1)); Rec a; bool r = false; HttpHandler *h = 0; int status; QByteArray body;
	if (k == 0) {
		int code = int(sx_int(100, 520, "code")); QByteArray c = symBytes(n, "content"); HttpHandlerFixed *f = new HttpHandlerFixed(code, c); h = f; int ch = 0; QObject::connect(f, &HttpHandlerFixed::changed, [&]() { ++ch; });
		a.onReady = [&](HttpConnection *s) { r = f->handleRequest(s); }; a.dev.feed("GET /x HTTP/1.1\r\n\r\n"); sx_assert(r, "the fixed handler takes every request"); sx_out("out", a.dev.out.constData(), a.dev.out.size());
		Msg m = readHead(a.dev.out, 0); status = m.status(); sx_assert(m.ok && (status == code || status == 500), "one response with the configured status"); if (code == 200 || code == 404 || code == 307 || code == 505) sx_assert(status == code, "known statuses are sent as they are");
		sx_assert(decValue(m.value("content-length")) == n && a.dev.out.size() >= n && sx_eq(a.dev.out.constData() + a.dev.out.size() - n, c.constData(), n), "the configured content");
		int code2 = int(sx_concrete(sx_int(199, 201, "code2"))); sx_assume(code >= 199 && code <= 203); QByteArray c2 = symBytes(n, "content2"); f->setStatusCode(code2); f->setContent(c2); sx_assert(ch == (code2 == code ? 0 : 1) + (same(c, c2) ? 0 : 1), "announced when it changes"); sx_cover("changed");
		int from = a.dev.out.size(); sx_assume(code2 != 199); a.dev.feed("POST /y HTTP/1.1\r\nContent-Length: 1\r\n\r\nb"); Msg m2 = readResponse(a.dev.out, from, false); sx_assert(m2.ok && m2.status() == code2 && same(m2.body, c2), "later requests get the new status and content");
	} else if (k == 1) {
		h = new HttpHandler404; QByteArray p = symBytes(n, "path"); a.onReady = [&](HttpConnection *s) { sx_cover("404"); QByteArray path(s->requestPath().constData(), s->requestPath().size()); r = h->handleRequest(s); body = answer(a, &status); sx_assert(r && status == 404, "every request is answered with 404"); QString t = QString::fromLatin1("The requested resource '") + QString::fromUtf8(path.constData(), path.size()) + QString::fromLatin1("' does not exist on this server"); sx_assert(same(body, t.toUtf8()), "the answer names the path"); sx_out("body", body.constData(), body.size()); };
		a.dev.feed("GET /" + p + " HTTP/1.1\r\n\r\n");
	} else {
		int calls = 0; HttpConnection *seen = 0; std::function<void(HttpConnection *)> fn = [&](HttpConnection *c) { ++calls; seen = c; }; HttpHandlerFunction *f = k == 2 ? new HttpHandlerFunction(fn) : new HttpHandlerFunction; h = f; bool set = k == 2;
		a.onReady = [&](HttpConnection *s) { int c0 = calls; r = f->handleRequest(s); sx_assert(r == set && calls == c0 + (set ? 1 : 0), "the function is called once if there is one"); if (set) sx_assert(seen == s, "with the connection"); sx_assert(a.dev.out.isEmpty() || a.ready > 1, "nothing is written by the handler itself"); s->writeResponse(200); sx_cover("function"); };
		a.dev.feed("GET /x HTTP/1.1\r\n\r\n"); int op = int(sx_concrete(sx_int(0, 2, "op"))); if (op == 1) { f->setFunction(fn); set = true; } else if (op == 2) { f->setFunction(std::function<void(HttpConnection *)>()); set = false; } a.dev.feed("HEAD /y HTTP/1.0\r\n\r\n"); sx_assert(a.ready == 2, "both asked");
	}
	delete h;
}

// ---------------------------------------------------------------- access log
static QVector<QByteArray> linesOf(const QByteArray &b) { QVector<QByteArray> r; int s = 0; for (int i = 0; i < b.size(); ++i) if (b.constData()[i] == '\n') { r.append(b.mid(s, i - s)); s = i + 1; } sx_assert(s == b.size(), "the log is whole lines"); return r; }
// One line: kind, then `address - - [date] "method uri version" ` and for all but BEGIN the status, length and seconds
static void checkLine(const QByteArray &l, char kind, bool trace, const QByteArray &request, int status, long length) {
	const char *tag = !trace ? "" : kind == 'B' ? "[BEGIN] " : kind == 'E' ? "[ END ] " : "[CLOSE] "; int i = int(strlen(tag)); sx_assert(starts(l, tag) && (trace || !starts(l, "[")), "lines are marked by kind");
	QByteArray t = l.mid(i); sx_assert(starts(t, " - - [02/Jan/2020 03:04:05] \"") || !sx_symbolic(), "address and date"); int q = 0; while (q + 3 < t.size() && !(t.constData()[q] == ']' && t.constData()[q + 1] == ' ' && t.constData()[q + 2] == '"')) ++q; t = t.mid(q + 3);
	sx_assert(t.size() >= request.size() && sx_eq(t.constData(), request.constData(), request.size()), "the line carries its own method, URI and version"); t = t.mid(request.size());
	if (kind == 'B') { sx_assert(same(t, "\" - - -"), "a begin line has no result"); return; }
	if (status >= 0) { QByteArray w = "\" " + num(status) + " " + num(length) + " "; sx_assert(starts(t, w.constData()), "the line carries its own status and length"); t = t.mid(w.size()); int d = 0; while (d < t.size() && t.constData()[d] != '.') ++d; sx_assert(d > 0 && t.size() == d + 4, "and the time taken in seconds"); }
}
struct Logged { char kind; QByteArray request; int status; long length; };
struct Side { // one connection with what its log should have
	Rec *r; bool pending, everLogged, chunked; QByteArray request; int status; long length; QByteArray left; MemDevice *other;
	Side() : r(new Rec), pending(false), everLogged(false), chunked(false), status(200), length(0), other(0) {}
};
// Any sequence of steps on two connections sharing one log. params: trace mode, steps, symbolic bytes in the URI, first step
extern "C" void log_steps() {
	bool trace = sx_param(0) != 0; int steps = int(sx_param(1)), n = int(sx_param(2)), start = int(sx_param(3)); MemDevice file; HttpHandlerLog *log = trace ? new HttpHandlerLog(HttpHandlerLog::TraceRequests, &file) : new HttpHandlerLog(&file); QByteArray sym; if (n >= 0) sym = symText(n, "uri", "#?\""); else { QByteArray x = symBytes(2, "uri"); unsigned char u = (unsigned char)x.constData()[0], v = (unsigned char)x.constData()[1]; sx_assume(u >= 0x80 && u < 0xc0 && v >= 0x80 && v < 0xc0); sym = QByteArray("41\xc3") + x.left(1) + "\xe2\x82" + x.mid(1); } QVector<Logged> want; Side c[2];
	auto attach = [&](Side *s) {
		s->r->onReady = [&, s](HttpConnection *x) { s->pending = true; QByteArray q = x->requestMethod(); s->request = QByteArray(q.constData(), q.size()) + " " + QByteArray(x->requestUri().constData(), x->requestUri().size()) + " " + QByteArray(x->requestHttpVersion().constData(), x->requestHttpVersion().size()); if (log) { bool t = log->handleRequest(x); sx_assert(!t, "the log never takes a request"); s->everLogged = true; if (trace) want.append(Logged{ 'B', s->request, -1, 0 }); } };
		s->r->onCompleted = [s](HttpConnection *) { s->pending = false; };
		s->r->onClosed = [&, s](HttpConnection *) { s->pending = false; if (log && s->everLogged && trace) want.append(Logged{ 'C', s->request, -1, 0 }); };
	};
	for (int i = 0; i < 2; ++i) attach(&c[i]);
	auto done = [&](Side *s, int status, long length) { if (log && s->everLogged) want.append(Logged{ 'E', s->request, status, length }); };
	for (int i = 0; i < steps; ++i) {
		int op = i == 0 && start >= 0 ? start : int(sx_concrete(sx_int(0, 12, "op"))); Side *s = &c[(op & 1) ? 1 : 0]; if (!s->r && op != 11) continue; HttpConnection *x = s->r ? &s->r->c : 0; bool open = s->r && x->state() != HttpConnection::Closed;
		switch (op) {
		case 0: if (open && !s->pending) { s->r->dev.feed("GET /a%" + sym + " HTTP/1.1\r\nX: y\r\n\r\n"); } break;
		case 1: if (open && !s->pending) { s->r->dev.feed("POST /" + sym + "?q=%31%32 HTTP/1.1\r\nContent-Length: 2\r\n\r\nhi"); } break;
		case 2: case 3: if (s->pending) { HttpHeaderCollection h; if (op == 3) { h << HttpHeader("Transfer-Encoding", "chunked"); x->writeHeaders(404, h); x->writeContent("abc"); done(s, 404, -1); x->endContent(); } else { done(s, 200, 5); x->writeResponse(200, h, "hello"); } } break;
		case 4: case 5: if (open) s->r->dev.close(); break;
		case 6: if (s->pending) { done(s, 302, -1); x->writeHeaders(302); x->writeContent("until close"); x->endContent(); } break; // the length is unknown, so the connection closes
		case 7: { if (open) { QByteArray part = "PUT /" + QByteArray(300, 'p') + " HTTP/1.1\r\n"; if (!s->pending) s->r->dev.feed(part + "Long: " + QByteArray(5000, 'l')); } break; } // a part of another request
		case 8: if (s == &c[0]) { s->r->~Rec(); s->everLogged = false; s->pending = false; new (s->r) Rec; attach(s); } break; // destroyed, and another created at the same address
		case 12: delete s->r; s->r = 0; s->pending = false; break;
		case 9: if (open && s->pending) { s->r->dev.feed("GET /next HTTP/1.1\r\n\r\n"); } break; // pipelined, waits
		case 10: { delete log; log = 0; break; }
		case 11: if (log) { log->setMode(trace ? HttpHandlerLog::TraceRequests : HttpHandlerLog::LogCompletedRequests); log->setDevice(&file); } break;
		}
		if (!s->r) continue;
	}
	sx_out("log", QByteArray(num(file.out.size() > 0)).constData(), 1); QVector<QByteArray> l = linesOf(file.out); for (int i = 0; i < l.size() && i < want.size(); ++i) checkLine(l.at(i), want.at(i).kind, trace, want.at(i).request, want.at(i).status, want.at(i).length);
	sx_assert(l.size() == want.size(), trace ? "one begin line per request, one end line per completed request, one close line per closed connection" : "exactly one line per completed request"); if (l.size() > 1) sx_cover("several lines"); if (want.size() == 0) sx_cover("no line");
	delete log; for (int i = 0; i < 2; ++i) delete c[i].r;
}
// Requests of one connection in one read, answered at once: each has its own line. params: trace mode
extern "C" void log_pipeline() {
	bool trace = sx_param(0) != 0; MemDevice file; HttpHandlerLog log(trace ? HttpHandlerLog::TraceRequests : HttpHandlerLog::LogCompletedRequests, &file); Rec a; QVector<Logged> want; static const int codes[] = { 200, 404, 500 };
	a.onReady = [&](HttpConnection *x) { QByteArray q = QByteArray(x->requestMethod().constData(), x->requestMethod().size()) + " " + QByteArray(x->requestUri().constData(), x->requestUri().size()) + " HTTP/1.1"; log.handleRequest(x); if (trace) want.append(Logged{ 'B', q, -1, 0 }); int k = a.ready - 1; want.append(Logged{ 'E', q, codes[k % 3], long(k) }); SxElapsedTimer::now += 1234; x->writeResponse(codes[k % 3], HttpHeaderCollection(), QByteArray(k, 'b')); };
	QByteArray u = symText(2, "uri", "#?\""), v = symText(1, "uri2", "#?\""); a.dev.feed("GET /%" + u + " HTTP/1.1\r\n\r\nDELETE /" + v + "1%25 HTTP/1.1\r\n\r\nGET /?%11 HTTP/1.1\r\n\r\n"); sx_assume(a.ready == 3); sx_assert(a.completed == 3, "three requests");
	QVector<QByteArray> l = linesOf(file.out); sx_assert(l.size() == want.size(), "one line each"); for (int i = 0; i < l.size(); ++i) { checkLine(l.at(i), want.at(i).kind, trace, want.at(i).request, want.at(i).status, want.at(i).length); if (want.at(i).kind == 'E') sx_assert(l.at(i).endsWith(" 1.234"), "the time taken is the time since the request was seen"); } sx_cover("pipelined");
}
