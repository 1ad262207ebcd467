// The proxy handler: what it asks the upstream server, and what it relays to its client. The network below
// QNetworkAccessManager is stood in for by a reply the harness drives; what Qt does with a request (cookies, methods) is
// read off the QNetworkRequest.
#include "reqoracle.h"
#include "HttpHandlerProxy.h"
#include <QtNetwork/QNetworkCookie>
using namespace Pillow;
struct FakeReply : QNetworkReply {
	QByteArray data; QIODevice *body; QByteArray late;
	FakeReply(QNetworkAccessManager::Operation op, const QNetworkRequest &r, QIODevice *b) : body(b) { setOperation(op); setRequest(r); setUrl(r.url()); QIODevice::open(QIODevice::ReadOnly | QIODevice::Unbuffered); }
	void abort() {}
	qint64 bytesAvailable() const { return data.size(); }
	void head(int status, const QVector<QPair<QByteArray, QByteArray> > &h) { setAttribute(QNetworkRequest::HttpStatusCodeAttribute, QVariant(status)); for (int i = 0; i < h.size(); ++i) setRawHeader(h.at(i).first, h.at(i).second); emit metaDataChanged(); }
	void feed(const QByteArray &b) { data.append(b); emit readyRead(); }
	void finish(QNetworkReply::NetworkError e) { if (e != NoError) setError(e, QString("failed")); setFinished(true); emit finished(); }
protected:
	qint64 readData(char *d, qint64 n) { if (n > data.size()) n = data.size(); memcpy(d, data.constData(), size_t(n)); data.remove(0, int(n)); return n; }
};
// the jar of a manager that uses it as QNetworkAccessManager does unless told otherwise
struct Jar : QNetworkCookieJar { int asked; Jar() : asked(0) {} };
struct Nam : ElasticNetworkAccessManager {
	QList<FakeReply *> replies; QList<QByteArray> methods; QByteArray stored;
	Nam() : ElasticNetworkAccessManager(0) {}
	QNetworkReply *createRequest(Operation op, const QNetworkRequest &r, QIODevice *d) {
		FakeReply *f = new FakeReply(op, r, d); QByteArray m;
		switch (op) { case HeadOperation: m = "HEAD"; break; case GetOperation: m = "GET"; break; case PutOperation: m = "PUT"; break; case PostOperation: m = "POST"; break; case DeleteOperation: m = "DELETE"; break; case CustomOperation: m = r.attribute(QNetworkRequest::CustomVerbAttribute).toByteArray(); break; default: break; }
		replies.append(f); methods.append(m); return f;
	}
};
struct Proxy : HttpHandlerProxy {
	Nam *nam;
	Proxy(const QUrl &u) : HttpHandlerProxy(u) { setup(); }
	Proxy() { setup(); }
	void setup() { delete _networkAccessManager; _networkAccessManager = nam = new Nam; }
	~Proxy() { delete nam; _networkAccessManager = 0; }
};
static QByteArray unescape(const QByteArray &b) { // what the text stands for
	QByteArray r; for (int i = 0; i < b.size(); ++i) { if (b.at(i) == '%' && i + 2 < b.size()) { int v = 0; for (int k = 1; k <= 2; ++k) { char c = lower(b.at(i + k)); v = v * 16 + (c >= 'a' ? c - 'a' + 10 : c - '0'); } r.append(char(v)); i += 2; } else r.append(b.at(i)); }
	return r;
}
static bool reservedByte(char c) { return strchr(":/?#[]@!$&'()*+,;=%", c) != 0; }
// equal as URL text: escapes of bytes that have no meaning of their own may be written either way
static QByteArray canonical(const QByteArray &b) {
	QByteArray r; static const char hex[] = "0123456789ABCDEF"; for (int i = 0; i < b.size(); ++i) { if (b.at(i) == '%' && i + 2 < b.size()) { int v = 0; for (int k = 1; k <= 2; ++k) { char c = lower(b.at(i + k)); v = v * 16 + (c >= 'a' ? c - 'a' + 10 : c - '0'); } bool keep = sx_concrete(v == 0 || reservedByte(char(v))); if (keep) { r.append('%'); r.append(hex[(v >> 4) & 15]); r.append(hex[v & 15]); } else r.append(char(v)); i += 2; } else r.append(b.at(i)); }
	return r;
}
static QByteArray value(const QNetworkRequest &r, const QByteArray &n, bool &has) { has = r.hasRawHeader(n); return r.rawHeader(n); }
// kind: 0 target bytes, 1 method, 2 header values and names, 3 repeated headers, 4 body, 5 no target, 6 configured addresses, 7 well-known methods, 8 escapes in the target
extern "C" void proxy_request() {
	int kind = int(sx_param(0)), n = int(sx_param(1)), k = int(sx_param(2)); static const char *const bases[] = { "http://up", "http://up:8080", "http://up:81/base?x=y#z", "http://127.0.0.1:1/" };
	QByteArray base = bases[kind == 6 ? k : 1]; Proxy px; if (kind != 5) px.setProxiedUrl(QUrl::fromEncoded(base));
	Rec r; bool taken = false; r.onReady = [&](HttpConnection *c) { taken = px.handleRequest(c); };
	QByteArray method("GET"), target("/a/b?c=d"), headers("Host: me\r\n"), body;
	if (kind == 0) { static const char *const around[][2] = { { "/", "" }, { "/a", "/b?x=1" }, { "/p?", "" }, { "/p?a=b&", "=c" }, { "/p?q#", "" }, { "//", "x" } }; target = QByteArray(around[k][0]) + symText(n, "target", "%") + around[k][1]; }
	else if (kind == 8) { static const char *const around[][2] = { { "/", "" }, { "/a%20", "b" }, { "/p?x=%26", "" }, { "/a%2F", "/%25" }, { "/%e2%82%ac", "?y=%C3%A9" } }; target = around[k][0]; for (int i = 0; i < n; ++i) { QByteArray e = symText(2, "escape"); for (int j = 0; j < 2; ++j) { char c = e.at(j); sx_assume((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')); } if (i == 0) sx_assume(e.at(0) < '8'); else sx_assume(e.at(0) < '8'); target.append('%'); target.append(e); } target.append(around[k][1]); }
	else if (kind == 1) { method = symText(n, "method"); for (int i = 0; i < n; ++i) sx_assume((method.at(i) >= 'A' && method.at(i) <= 'Z') || (method.at(i) >= '0' && method.at(i) <= '9')); }
	else if (kind == 2) { headers.append("X-" + symText(n, "name", "()<>@,;:\\\"/[]?={}") + ": " + symText(n, "value") + "\r\nAccept: a/b\r\n"); if (k == 1) headers.append("Accept-Encoding: " + symText(n, "coding") + "\r\n"); if (k == 2) headers.append("Cookie: mine=" + symText(n, "cookie") + "\r\n"); }
	else if (kind == 3) { static const char *const names[] = { "X-A", "x-a", "Accept", "X-a" }; for (int i = 0; i < n; ++i) headers.append(QByteArray(names[(i + k) % 4]) + ": " + symText(1, "value") + "\r\n"); }
	else if (kind == 7) { static const char *const methods[] = { "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE" }; method = methods[k]; }
	if (kind == 4 || (kind == 7 && n)) { body = symBytes(n, "body"); if (k == 1 && kind == 4) body.append(QByteArray(5000, 'x')); headers.append("Content-Length: " + num(body.size()) + "\r\n"); method = kind == 4 ? QByteArray("POST") : method; }
	QByteArray all = method + " " + target + " HTTP/1.1\r\n" + headers + "\r\n" + body; Req q = readRequest(all, 0); r.dev.feed(all);
	if (q.st != Req::Good) { sx_cover("not a request"); sx_assert(!taken && px.nam->replies.isEmpty(), "nothing is forwarded for a malformed request"); return; }
	sx_assert(r.ready == 1, "the request reaches the handler");
	if (kind == 5) { sx_assert(!taken && px.nam->replies.isEmpty() && r.dev.out.isEmpty() && r.c.state() == HttpConnection::SendingHeaders, "without a target the request is left alone"); sx_cover("no target"); return; }
	sx_assert(taken, "the request is taken"); sx_assert(px.nam->replies.size() == 1, "one upstream request"); FakeReply *f = px.nam->replies.at(0); QNetworkRequest u = f->request();
	sx_assert(same(px.nam->methods.at(0), q.method), "the method is the one received"); QUrl url = u.url(); QUrl b = QUrl::fromEncoded(base);
	sx_assert(same(url.scheme(), QString("http")) && same(url.host(), b.host()) && url.port(80) == b.port(80), "addressed to the configured host");
	QByteArray path = url.path(QUrl::FullyEncoded).toLatin1(), query = url.query(QUrl::FullyEncoded).toLatin1(); sx_out("path", path.constData(), path.size()); sx_out("query", query.constData(), query.size());
	sx_assert(same(canonical(path), canonical(q.path)), "the path is the one received"); if (kind != 6 || !q.query.isEmpty()) sx_assert(same(canonical(query), canonical(q.query)), "the query is the one received");
	for (int i = 0; i < q.headers.size(); ++i) { // every header with all its values, in order
		QByteArray want; int cnt = 0; bool first = true; for (int j = 0; j < q.headers.size(); ++j) if (q.headers.at(j).first.size() == q.headers.at(i).first.size()) { bool eq = true; for (int x = 0; x < q.headers.at(i).first.size(); ++x) if (lower(q.headers.at(i).first.at(x)) != lower(q.headers.at(j).first.at(x))) { eq = false; break; } if (!eq) continue; if (j < i) first = false; if (cnt++) want.append(", "); want.append(q.headers.at(j).second); }
		if (!first) continue; bool h; QByteArray got = value(u, q.headers.at(i).first, h); sx_assert(h, "every header is forwarded"); sx_assert(same(got, want), "with all its values"); if (cnt > 1) sx_cover("repeated header"); }
	QList<QByteArray> names = u.rawHeaderList(); for (int i = 0; i < names.size(); ++i) { bool known = false; for (int j = 0; j < q.headers.size() && !known; ++j) { known = names.at(i).size() == q.headers.at(j).first.size(); for (int x = 0; known && x < names.at(i).size(); ++x) if (lower(names.at(i).at(x)) != lower(q.headers.at(j).first.at(x))) known = false; }
		sx_assert(known || (ciEqual(names.at(i), "accept-encoding") && ciEqual(u.rawHeader(names.at(i)), "identity")), "no header is invented"); }
	sx_assert(u.hasRawHeader("Accept-Encoding"), "the content is not decoded on the way"); // QNetworkAccessManager decodes what it asked for itself
	sx_assert(u.attribute(QNetworkRequest::CookieLoadControlAttribute, QVariant(int(QNetworkRequest::Automatic))).toInt() == QNetworkRequest::Manual, "no cookie of another client is added");
	sx_assert(u.attribute(QNetworkRequest::CookieSaveControlAttribute, QVariant(int(QNetworkRequest::Automatic))).toInt() == QNetworkRequest::Manual, "no cookie is kept for other clients");
	if (body.isEmpty()) sx_assert(f->body == 0 || f->body->bytesAvailable() == 0, "no body"); else { sx_assert(f->body != 0 && f->body->isReadable(), "the body is there");
		QByteArray got = f->body->read(3); int how = int(sx_concrete(sx_int(0, 2, "then"))); if (how == 1) { r.c.close(); } else if (how == 2) { r.c.writeResponse(200); r.dev.feed("POST /z HTTP/1.1\r\nContent-Length: 9\r\n\r\nZZZZZZZZZ"); }
		got.append(f->body->readAll()); sx_assert(same(got, body), "the body is the one received, whatever becomes of the client meanwhile"); sx_cover("body"); }
	sx_cover("forwarded");
}
// what the client has been sent of the response so far
struct Up { int status; QVector<QPair<QByteArray, QByteArray> > headers; QByteArray body; int framing; /* 0 length, 1 chunked, 2 until close */ };
static bool hop(const QByteArray &n) { return ciEqual(n, "content-length") || ciEqual(n, "transfer-encoding") || ciEqual(n, "connection"); }
static void checkHead(const Msg &m, const Up &u) {
	sx_assert(m.status() == u.status, "the status is the upstream's"); QVector<QPair<QByteArray, QByteArray> > want, got; bool type = false;
	for (int i = 0; i < u.headers.size(); ++i) { if (hop(u.headers.at(i).first)) continue; if (ciEqual(u.headers.at(i).first, "content-type")) { type = true; sx_assert(m.count("content-type") == 1 && same(m.value("content-type"), u.headers.at(i).second), "the content type"); continue; }
		const QByteArray &v = u.headers.at(i).second; int s = 0; if (ciEqual(u.headers.at(i).first, "set-cookie")) { for (int j = 0; j <= v.size(); ++j) if (j == v.size() || v.at(j) == '\n') { want.append(qMakePair(u.headers.at(i).first, v.mid(s, j - s))); s = j + 1; } } else want.append(u.headers.at(i)); }
	for (int i = 0; i < m.headers.size(); ++i) { if (hop(m.headers.at(i).first) || ciEqual(m.headers.at(i).first, "content-type")) continue; got.append(m.headers.at(i)); }
	(void)type; sx_assert(got.size() == want.size(), "the headers are the upstream's"); for (int i = 0; i < got.size(); ++i) sx_assert(same(got.at(i).first, want.at(i).first) && same(got.at(i).second, want.at(i).second), "header by header");
	if (u.framing == 0) sx_assert(m.length == u.body.size() || m.untilClose, "the length is the upstream's");
}
static const int statuses[] = { 200, 404, 500, 302, 401, 503, 422, 206, 403, 410, 400, 501, 407, 429, 201, 409, 405 };
// the error QNetworkAccessManager reports for a complete response with this status
static QNetworkReply::NetworkError errorOf(int s) {
	if (s < 400) return QNetworkReply::NoError; if (s == 400) return QNetworkReply::ProtocolInvalidOperationError; if (s == 401) return QNetworkReply::AuthenticationRequiredError; if (s == 403) return QNetworkReply::ContentAccessDenied; if (s == 404) return QNetworkReply::ContentNotFoundError; if (s == 405) return QNetworkReply::ContentOperationNotPermittedError; if (s == 407) return QNetworkReply::ProxyAuthenticationRequiredError; if (s == 409) return QNetworkReply::ContentConflictError; if (s == 410) return QNetworkReply::ContentGoneError;
	if (s == 500) return QNetworkReply::InternalServerError; if (s == 501) return QNetworkReply::OperationNotImplementedError; if (s == 503) return QNetworkReply::ServiceUnavailableError; return s >= 500 ? QNetworkReply::UnknownServerError : QNetworkReply::UnknownContentError;
}
static const QNetworkReply::NetworkError failures[] = { QNetworkReply::ConnectionRefusedError, QNetworkReply::RemoteHostClosedError, QNetworkReply::HostNotFoundError, QNetworkReply::TimeoutError, QNetworkReply::OperationCanceledError, QNetworkReply::SslHandshakeFailedError, QNetworkReply::UnknownNetworkError, QNetworkReply::ProtocolUnknownError, QNetworkReply::ProtocolFailure };
struct Client { QByteArray request; bool head, http11, alive; };
static Client client(int k) { Client c; c.head = k == 4; c.http11 = k == 0 || k == 1 || k == 4; c.alive = k == 0 || k == 3 || k == 4; static const char *const lines[] = { "GET /p HTTP/1.1\r\nHost: h\r\n\r\n", "GET /p HTTP/1.1\r\nConnection: close\r\n\r\n", "GET /p HTTP/1.0\r\n\r\n", "GET /p HTTP/1.0\r\nConnection: keep-alive\r\n\r\n", "HEAD /p HTTP/1.1\r\nHost: h\r\n\r\n" }; c.request = lines[k]; return c; }
static Up upstream(int framing, int si, int hk, int n) {
	Up u; u.status = statuses[si]; u.framing = framing; u.body = symBytes(n, "body"); if (hk & 1) { u.headers.append(qMakePair(QByteArray("X-A"), symText(1, "value"))); u.headers.append(qMakePair(QByteArray("Content-Type"), QByteArray("x/y"))); }
	if (hk & 2) { u.headers.append(qMakePair(QByteArray("Set-Cookie"), "a=" + symText(1, "cookie") + "\nb=" + symText(1, "cookie2") + "; Path=/")); u.headers.append(qMakePair(QByteArray("ETag"), QByteArray("\"q\""))); }
	if (hk & 4) u.headers.append(qMakePair(QByteArray("Connection"), QByteArray("close")));
	if (framing == 0) u.headers.append(qMakePair(QByteArray("Content-Length"), num(n))); if (framing == 1) u.headers.append(qMakePair(QByteArray("Transfer-Encoding"), QByteArray("chunked"))); return u;
}
static void second(Rec &r, Proxy &px, FakeReply *old, int oldOut) { // the connection goes on with a next exchange that the first does not disturb
	(void)old; QByteArray before = r.dev.out; int n0 = px.nam->replies.size(); r.dev.feed("GET /second HTTP/1.1\r\n\r\n"); sx_assert(px.nam->replies.size() == n0 + 1, "the next request is forwarded"); FakeReply *f = px.nam->replies.at(n0);
	Up u; u.status = 201; u.framing = 0; u.body = "next"; u.headers.append(qMakePair(QByteArray("Content-Length"), QByteArray("4"))); f->head(u.status, u.headers); f->feed("ne"); f->feed("xt"); f->finish(QNetworkReply::NoError);
	QByteArray out = r.dev.out.mid(before.size()); Msg m = readResponse(out, 0, false); sx_assert(m.ok && m.complete && m.used == out.size() && same(m.body, u.body) && m.status() == 201, "and answered like the first on a new connection"); (void)oldOut; sx_cover("second exchange");
}
// outcome: 0 complete, 1 fails, 2 reply destroyed, 3 client goes away, 4 client object destroyed, 5 handler destroyed with everything of its own
extern "C" void proxy_relay() {
	int framing = int(sx_param(0)), who = int(sx_param(1)), si = int(sx_param(2)), hk = int(sx_param(3)), n = int(sx_param(4)), outcome = int(sx_param(5));
	QUrl base = QUrl::fromEncoded("http://up"); Proxy *px = new Proxy(base); Rec *r = new Rec; HttpConnection *conn = new HttpConnection; MemDevice dev; int completed = 0, closed = 0;
	QObject::connect(conn, &HttpConnection::requestReady, [&](HttpConnection *c) { px->handleRequest(c); }); QObject::connect(conn, &HttpConnection::requestCompleted, [&](HttpConnection *) { ++completed; }); QObject::connect(conn, &HttpConnection::closed, [&](HttpConnection *) { ++closed; });
	delete r; Client cl = client(who); conn->initialize(&dev, &dev); dev.feed(cl.request); sx_assert(px->nam->replies.size() == 1, "forwarded"); FakeReply *f = px->nam->replies.at(0); QPointer<QNetworkReply> alive(f);
	bool head = cl.head; Up u = upstream(framing, si, hk, n); if (head && n && framing != 0) u.body = QByteArray(); QByteArray body = head ? QByteArray() : u.body;
	// events: 0 head, then pieces; `when` events happen before the outcome
	bool meta = false; int fed = 0; int pieces = 0; bool relayed = false; int limit = 2 + body.size();
	for (int e = 0; e < limit; ++e) {
		if (outcome != 0) { bool now = sx_concrete(sx_int(0, 1, "now")) != 0; if (now) break; }
		if (!meta) { f->head(u.status, u.headers); meta = true; continue; }
		if (fed == body.size() && (pieces || body.isEmpty())) { if (body.isEmpty() && outcome == 0) { bool empty = sx_concrete(sx_int(0, 1, "empty read")) != 0; if (empty && !head) { f->feed(QByteArray()); relayed = true; } } break; }
		int left = body.size() - fed; int k = left ? int(sx_concrete(sx_int(1, left, "piece"))) : 0; f->feed(body.mid(fed, k)); fed += k; ++pieces; relayed = true;
		Msg m = readResponse(dev.out, 0, head); sx_assert(m.ok, "what was relayed so far is well formed"); checkHead(m, u); sx_assert(same(m.body, body.mid(0, fed)), "what was received is relayed at once");
	}
	QByteArray before = dev.out; bool whole = fed == body.size() && meta; bool over = completed > 0;
	if (outcome == 0) { f->finish(errorOf(u.status)); }
	else if (outcome == 1) { int k = int(sx_concrete(sx_int(0, int(sizeof(failures) / sizeof(failures[0])) - 1, "failure"))); f->finish(failures[k]); }
	else if (outcome == 2) delete f;
	else if (outcome == 3) dev.close();
	else if (outcome == 4) { delete conn; conn = 0; }
	else if (outcome == 5) { delete px; px = 0; delete f; }
	QByteArray out = dev.out; sx_out("out", out.constData(), out.size());
	if (outcome == 3 || outcome == 4) {
		if (alive) { f->feed("more"); f->finish(QNetworkReply::NoError); } sx_assert(dev.out.size() == before.size(), "nothing is written once the client is gone"); sx_process_events(); sx_assert(alive.isNull(), "the upstream request ends with the client's"); sx_cover("client gone");
		if (conn) { sx_assert(conn->state() == HttpConnection::Closed || over, "closed"); delete conn; } delete px; return;
	}
	Msg m = readResponse(out, 0, head); HttpConnection::State st = conn->state(); sx_out_int("state", st);
	sx_assert(st == HttpConnection::ReceivingHeaders || st == HttpConnection::Closed, "the client is not left waiting"); sx_assert(m.ok, "the client gets a well-formed response");
	if (outcome == 0) { sx_assert(m.complete && m.used == out.size(), "a complete one"); checkHead(m, u); sx_assert(same(m.body, body), "with the upstream's body"); if (m.untilClose && !head) sx_assert(st == HttpConnection::Closed, "ended by closing"); if (cl.alive && !(hk & 4) && (framing == 0 || (framing == 1 && cl.http11))) sx_assert(st == HttpConnection::ReceivingHeaders, "the connection is kept"); if (st == HttpConnection::ReceivingHeaders) sx_assert(completed == 1, "completed once"); sx_cover(m.chunked ? "chunked" : m.untilClose ? "until close" : "length"); }
	else if (over) { sx_assert(out.size() == before.size(), "a complete response is left alone"); sx_cover("already complete"); }
	else if (!relayed) { sx_assert(m.complete && m.used == out.size(), "one complete response"); sx_assert(m.status() == 503, "the client is told with a 503"); sx_cover("503"); }
	else { sx_assert(out.size() == before.size(), "nothing is added to what was relayed"); sx_assert(st == HttpConnection::Closed, "the connection is ended"); sx_assert(same(m.body, body.mid(0, fed)), "what was relayed stays"); sx_assert(!m.complete || m.untilClose || (whole && framing == 0), "and does not look complete"); sx_cover("cut short"); }
	if (outcome != 2 && outcome != 5 && alive) { QByteArray o = dev.out; f->feed("late"); if (outcome != 0) f->finish(QNetworkReply::NoError); sx_assert(dev.out.size() == o.size(), "nothing that comes later reaches the client"); }
	if (st == HttpConnection::ReceivingHeaders && px) { int n0 = px->nam->replies.size(); QByteArray o = dev.out; bool early = sx_concrete(sx_int(0, 1, "early")) != 0; if (!early) sx_process_events();
		dev.feed("GET /second HTTP/1.1\r\n\r\n"); sx_assert(px->nam->replies.size() == n0 + 1, "the next request is forwarded"); FakeReply *g = px->nam->replies.at(n0); Up v; v.status = 201; v.framing = 0; v.body = "next"; v.headers.append(qMakePair(QByteArray("Content-Length"), QByteArray("4"))); g->head(201, v.headers); g->feed("ne"); if (early) sx_process_events(); g->feed("xt"); g->finish(QNetworkReply::NoError);
		QByteArray x = dev.out.mid(o.size()); Msg y = readResponse(x, 0, false); sx_assert(y.ok && y.complete && y.used == x.size() && same(y.body, v.body), "and answered on its own"); checkHead(y, v); sx_cover("second exchange"); }
	sx_process_events(); sx_assert(alive.isNull(), "the upstream reply is released"); delete conn; delete px;
}
// two clients of one proxy, their upstream replies interleaved
extern "C" void proxy_two() {
	int n = int(sx_param(0)), framing = int(sx_param(1)); Proxy px(QUrl::fromEncoded("http://up")); Rec a, b; a.onReady = b.onReady = [&](HttpConnection *c) { px.handleRequest(c); }; a.dev.feed("GET /a HTTP/1.1\r\nCookie: who=a\r\n\r\n"); b.dev.feed("GET /b HTTP/1.1\r\nX-B: b\r\n\r\n");
	sx_assert(px.nam->replies.size() == 2, "each is forwarded"); FakeReply *f[2] = { px.nam->replies.at(0), px.nam->replies.at(1) }; Up u[2]; for (int i = 0; i < 2; ++i) { u[i] = upstream(framing, i, i + 1, n); }
	sx_assert(same(f[0]->request().url().path(), QString("/a")) && same(f[1]->request().url().path(), QString("/b")), "each with its own target"); sx_assert(f[0]->request().hasRawHeader("Cookie") && !f[1]->request().hasRawHeader("Cookie") && !f[0]->request().hasRawHeader("X-B") && f[1]->request().hasRawHeader("X-B"), "and its own headers");
	int at[2] = { -1, -1 }; while (at[0] <= n || at[1] <= n) { int w = int(sx_concrete(sx_int(0, 1, "which"))); if (at[w] > n) w = 1 - w; if (at[w] < 0) f[w]->head(u[w].status, u[w].headers); else if (at[w] < n) f[w]->feed(u[w].body.mid(at[w], 1)); else f[w]->finish(errorOf(u[w].status)); ++at[w]; }
	for (int i = 0; i < 2; ++i) { QByteArray out = i ? b.dev.out : a.dev.out; Msg m = readResponse(out, 0, false); sx_assert(m.ok && m.complete && m.used == out.size(), "each client gets one response"); checkHead(m, u[i]); sx_assert(same(m.body, u[i].body), "its own"); }
	sx_process_events(); sx_cover("both answered");
}
// the body arrives faster than it is read. outcome: 0 complete, 1 fails, 2 reply destroyed, 3 complete, in three pieces
extern "C" void proxy_large() {
	int framing = int(sx_param(0)), who = int(sx_param(1)), n = int(sx_param(2)), outcome = int(sx_param(3)); Proxy px(QUrl::fromEncoded("http://up")); Rec r; r.onReady = [&](HttpConnection *c) { px.handleRequest(c); }; Client cl = client(who); r.dev.feed(cl.request); sx_assert(px.nam->replies.size() == 1, "forwarded"); FakeReply *f = px.nam->replies.at(0);
	Up u = upstream(framing, 0, 1, 2); QByteArray tail = u.body, b(n, 'x'); for (int i = 0; i < n; i += 997) b[i] = char('a' + i % 26); u.body = b + tail; for (int i = 0; i < u.headers.size(); ++i) if (ciEqual(u.headers.at(i).first, "content-length")) u.headers[i].second = num(u.body.size());
	f->head(u.status, u.headers); int pieces = outcome == 3 ? 3 : 1, at = 0; for (int i = 0; i < pieces; ++i) { int k = i + 1 == pieces ? u.body.size() - at : u.body.size() / 3; f->feed(u.body.mid(at, k)); at += k; Msg m = readResponse(r.dev.out, 0, false); sx_assert(m.ok && same(m.body, u.body.left(at)), "what was received is relayed at once"); }
	bool over = r.completed > 0; if (outcome == 0 || outcome == 3) f->finish(QNetworkReply::NoError); else if (outcome == 1) f->finish(QNetworkReply::RemoteHostClosedError); else delete f;
	Msg m = readResponse(r.dev.out, 0, false); sx_assert(m.ok && same(m.body, u.body), "the client gets the whole body"); checkHead(m, u); HttpConnection::State st = r.c.state(); sx_assert(st == HttpConnection::ReceivingHeaders || st == HttpConnection::Closed, "and is not left waiting"); if (outcome == 0 || outcome == 3) { sx_assert(m.complete && m.used == r.dev.out.size(), "in a complete response"); } else if (!over) sx_assert(st == HttpConnection::Closed && (!m.complete || m.untilClose), "and nothing that looks complete"); sx_process_events(); sx_cover("large");
}
static QUrl place(int k) { static const char *const at[] = { "http://up", "http://up:8080", "https://up", "http://up:81/base?x=y#z", "http://other", "http://up/base", "http://other:8080", "", "http://up:80/?q" }; return QUrl::fromEncoded(at[k]); }
// the configured address changes between requests
extern "C" void proxy_target() {
	int k = int(sx_param(0)); Proxy *px; if (sx_param(1)) px = new Proxy(place(k)); else { px = new Proxy; px->setProxiedUrl(place(k)); }
	for (int i = 0; i < 3; ++i) {
		QUrl b = place(k); sx_assert(px->proxiedUrl() == b, "the address is the one configured"); Rec r; bool taken = false; r.onReady = [&](HttpConnection *c) { taken = px->handleRequest(c); }; int had = px->nam->replies.size(); r.dev.feed("GET /a/b?c=d HTTP/1.1\r\nHost: me\r\n\r\n");
		if (b.isEmpty()) { sx_assert(!taken && px->nam->replies.size() == had && r.dev.out.isEmpty(), "without a target the request is left alone"); sx_cover("left alone"); }
		else { sx_assert(taken && px->nam->replies.size() == had + 1, "one upstream request"); QUrl u = px->nam->replies.at(had)->request().url(); sx_assert(same(u.scheme(), b.scheme()) && same(u.host(), b.host()) && u.port(-1) == b.port(-1), "addressed to the host configured last"); sx_assert(same(u.path(QUrl::FullyEncoded), QString("/a/b")) && same(u.query(QUrl::FullyEncoded), QString("c=d")), "for what was requested"); sx_cover("addressed"); }
		k = int(sx_concrete(sx_int(0, 8, i ? "next2" : "next"))); px->setProxiedUrl(place(k));
	}
	delete px;
}
