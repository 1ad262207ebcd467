// The client: what it writes (C22, C13), how it reads responses (C23), how requests end (C24), nothing carried over (C25), redirects (C26), decoding (C27).
#include "common.h"
#include "HttpClient.h"
#include "replies.h"
using namespace Pillow;
// ---- a decompressor with zlib's calling contract, standing in for zlib in both builds: after the two-byte magic, a byte
// below 0xf0 stands for itself repeated `factor` times, 0xff is corrupt, 0xfe ends the stream once all output is taken.
struct z_stream_s;
namespace {
struct ZS { const unsigned char *next_in; unsigned avail_in; unsigned long total_in; unsigned char *next_out; unsigned avail_out; unsigned long total_out; const char *msg; void *state; };
struct ZState { int seen, left; unsigned char cur; bool ended, bad; };
int zFactor = 1, zOpen = 0;
}
extern "C" int inflateInit2_(z_stream_s *z, int bits, const char *, int) { ZS *s = (ZS *)z; sx_assert(bits == 31, "the decoder reads gzip"); ZState *t = new ZState; t->seen = 0; t->left = 0; t->cur = 0; t->ended = t->bad = false; s->state = t; ++zOpen; return 0; }
extern "C" int inflateEnd(z_stream_s *z) { ZS *s = (ZS *)z; delete (ZState *)s->state; s->state = 0; --zOpen; return 0; }
extern "C" int inflateReset(z_stream_s *z) { ZState *t = (ZState *)((ZS *)z)->state; t->seen = 0; t->left = 0; t->ended = t->bad = false; return 0; }
extern "C" int inflate(z_stream_s *z, int flush) {
	ZS *s = (ZS *)z; ZState *t = (ZState *)s->state; bool progress = false; if (t->bad) return -3; if (t->ended) return 1;
	for (;;) {
		if (t->left > 0) { if (s->avail_out == 0) break; unsigned n = t->left; if (n > s->avail_out) n = s->avail_out; memset(s->next_out, t->cur, n); s->next_out += n; s->avail_out -= n; t->left -= int(n); progress = true; continue; }
		if (s->avail_in == 0) break; unsigned char c = *s->next_in;
		if (t->seen < 2) { if (c != (t->seen ? 0x8b : 0x1f)) { t->bad = true; return -3; } ++t->seen; ++s->next_in; --s->avail_in; progress = true; continue; }
		if (c == 0xff) { t->bad = true; return -3; }
		if (c == 0xfe) { ++s->next_in; --s->avail_in; t->ended = true; return 1; }
		++s->next_in; --s->avail_in; progress = true; t->cur = c; t->left = zFactor;
	}
	return progress && flush != 4 ? 0 : -5;
}
// ---- the client with everything that happens recorded
static QByteArray headerLog(const HttpHeaderCollection &h) { QByteArray r = num(h.size()); for (int i = 0; i < h.size(); ++i) { put(r, h.at(i).first); put(r, h.at(i).second); } return r; }
static QByteArray two(int v) { QByteArray r(2, 0); r[0] = char(v >> 8); r[1] = char(v & 255); return r; }
struct Cli {
	HttpClient c; SxTcpSocket *s; int heads, ready, fin; QByteArray log, body, last; bool consume; std::function<void()> onHeaders, onReady, onFinished; QVector<int> errors; QVector<QByteArray> shots; int headsHere;
	Cli() : heads(0), ready(0), fin(0), consume(false), headsHere(0) {
		s = SxTcpSocket::last;
		QObject::connect(&c, &HttpClient::headersCompleted, [this] { ++heads; ++headsHere; if (onHeaders) onHeaders(); });
		QObject::connect(&c, &HttpClient::contentReadyRead, [this] { ++ready; if (consume) body.append(c.consumeContent()); if (onReady) onReady(); });
		QObject::connect(&c, &HttpClient::finished, [this] { ++fin; errors.append(int(c.error())); shots.append(shot()); headsHere = 0; body.clear(); if (onFinished) onFinished(); });
	}
	QByteArray whole() const { return body + c.content(); }
	QByteArray shot() const { QByteArray r = num(int(c.error())); r.append(' '); r.append(two(c.statusCode())); r.append(headerLog(c.headers())); put(r, whole()); return r; }
	void settle() { if (s->state() == QAbstractSocket::ConnectingState) s->sxConnected(); }
	// the network delivers no more than the socket may hold
	void feed(const QByteArray &b) {
		int p = 0, idle = 0; while (p < b.size()) {
			if (s->state() != QAbstractSocket::ConnectedState) return; int n = b.size() - p; qint64 cap = s->readBufferSize(); if (cap > 0) { int room = int(cap - s->in.size()); if (n > room) n = room; }
			if (n > 0) { idle = 0; s->sxFeed(b.constData() + p, n); p += n; } else if (++idle > 3) return; if (cap > 0) sx_process_events(); }
		if (s->readBufferSize() > 0) sx_process_events();
	}
};
static HttpClientRequest req(const char *method, const QByteArray &url, const HttpHeaderCollection &h = HttpHeaderCollection(), const QByteArray &data = QByteArray()) { HttpClientRequest r; r.method = method; r.url = QUrl::fromEncoded(url); r.headers = h; r.data = data; return r; }
// ---- C22, C13: what is written
static QByteArray wire(const QByteArray &method, const QByteArray &target, const QByteArray &host, const HttpHeaderCollection &h, const QByteArray &data) {
	QByteArray r = method + " " + target + " HTTP/1.1\r\nHost: " + host + "\r\n"; for (int i = 0; i < h.size(); ++i) r += h.at(i).first + ": " + h.at(i).second + "\r\n"; if (!data.isEmpty()) r += "Content-Length: " + num(data.size()) + "\r\n"; return r + "\r\n" + data;
}
struct Plan { QByteArray method, url, target, host, hostname; int port; HttpHeaderCollection h; QByteArray data; bool viaVerb; };
static Plan plan(int k, int tag) {
	const char *a = tag ? "a2" : "a1", *b = tag ? "b2" : "b1", *d = tag ? "d2" : "d1"; Plan p; p.method = "GET"; p.port = 80; p.hostname = "h"; p.host = "h"; p.viaVerb = false; QByteArray path = "/p", q, frag;
	switch (k) {
	case 0: path = "/" + symText(2, a, "%?#\"<>\\^`{|}/."); break;
	case 1: path = "/a%2" + symText(1, a); sx_assume((path.at(4) >= '0' && path.at(4) <= '9') || (path.at(4) >= 'A' && path.at(4) <= 'F')); sx_assume(path.at(4) != 'D' && path.at(4) != 'E'); break; // %2D and %2E are the same as - and .
	case 2: path = "/s"; q = symText(2, a, "%#\"<>\\^`{|}[]"); break;
	case 3: path = ""; break;
	case 4: path = ""; q = "x=1"; break;
	case 5: { static const int bases[] = { 1, 78, 442, 1023, 8079, 65532 }; p.port = bases[sx_concrete(sx_int(0, 5, a))] + int(sx_int(0, 3, b)); break; }
	case 6: p.hostname = "h" + symText(1, a) + ".example"; for (int i = 1; i < 2; ++i) { char c = p.hostname.at(i); sx_assume((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9')); } break;
	case 7: p.method = symText(3, a, ":"); break;
	case 8: p.h << HttpHeader(symText(2, a, ":"), symText(2, b)) << HttpHeader("X-Y", QByteArray()) << HttpHeader("X-Y", "2"); break;
	case 9: p.method = "POST"; p.data = symBytes(int(sx_concrete(sx_int(0, 3, b))), d); break;
	case 10: p.method = "PUT"; p.data = QByteArray(int(sx_concrete(sx_int(4094, 4098, b))), 'd'); p.data[7] = symBytes(1, d).at(0); break;
	case 11: p.method = "DELETE"; p.h << HttpHeader("K", "v"); p.port = 81; break;
	case 12: p.method = "HEAD"; q = ""; path = "/x/" + symText(1, a, "%?#\"<>\\^`{|}/.") + ";p"; break;
	case 13: p.method = "POST"; p.h << HttpHeader("A", QByteArray(9000, 'v')); p.data = QByteArray(9000, 'w'); p.data[8999] = symBytes(1, d).at(0); break;
	case 14: p.method = "GET"; p.h << HttpHeader("A", QByteArray(20000, 'v')); break;
	case 16: path = "/f?"; q = "k=" + symText(1, a, "%#\"<>\\^`{|}[]"); path = "/f"; frag = "#top"; break;
	case 17: p.h << HttpHeader("X-A", symBytes(2, a)) << HttpHeader("X-B", QByteArray("b")) << HttpHeader("X-A", symText(1, b)); break;
	case 15: p.hostname = "other"; p.port = 8080; break;
	}
	p.host = p.hostname; p.url = "http://" + p.hostname; bool def = sx_concrete(p.port == 80); if (!def) { QByteArray n = num(sx_concrete(p.port)); p.host += ":" + n; p.url += ":" + n; } p.url += path; if (!q.isNull()) p.url += "?" + q; p.url += frag; p.target = (path.isEmpty() ? QByteArray("/") : path) + (q.isEmpty() ? QByteArray() : "?" + q); return p;
}
static void issue(HttpClient &c, const Plan &p, int way) {
	QUrl u = QUrl::fromEncoded(p.url);
	if (way == 1 && p.method == "GET") c.get(u, p.h); else if (way == 1 && p.method == "HEAD") c.head(u, p.h); else if (way == 1 && p.method == "POST") c.post(u, p.h, p.data); else if (way == 1 && p.method == "PUT") c.put(u, p.h, p.data); else if (way == 1 && p.method == "DELETE" && p.data.isEmpty()) c.deleteResource(u, p.h);
	else if (way == 2) { HttpClientRequest r; r.method = p.method; r.url = u; r.headers = p.h; r.data = p.data; c.request(r); } else c.request(p.method, u, p.h, p.data);
}
// param: kind of first and second request, how they are issued, how the first ends
extern "C" void client_request() {
	int k1 = int(sx_param(0)), k2 = int(sx_param(1)), way = int(sx_param(2)), end = int(sx_param(3)); Cli x; Plan p = plan(k1, 0); issue(x.c, p, way); sx_assert(x.s->connects == 1 && x.s->state() == QAbstractSocket::ConnectingState, "connects first"); sx_assert(same(latin(x.s->host), latin(QString::fromLatin1(p.hostname))) && x.s->port == p.port, "connects to the URL's host and port"); sx_assert(x.s->out.isEmpty(), "nothing is written before the connection is made");
	x.s->sxConnected(); QByteArray w = wire(p.method, p.target, p.host, p.h, p.data); sx_out("out", x.s->out.constData(), x.s->out.size()); sx_assert(same(x.s->out, w), "the request is written exactly"); sx_cover("first");
	if (k2 < 0) return; int base = x.s->out.size();
	if (end == 0) x.feed("HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx"); else if (end == 1) x.c.abort(); else if (end == 2) { x.feed("HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nx"); x.s->sxRemoteClosed(); } else if (end == 3) x.feed("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 0\r\n\r\n"); else if (end == 4) { x.feed("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"); x.s->sxRemoteClosed(); } else if (end == 5) x.s->sxFail(QAbstractSocket::SocketTimeoutError); else if (end == 6) { x.c.setKeepAliveTimeout(100); SxElapsedTimer::now += 50; x.feed("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"); SxElapsedTimer::now += sx_concrete(sx_int(99, 102, "idle")); }
	if (p.method == "HEAD" && end == 2) { } sx_assert(!x.c.responsePending(), "the first request ended"); int connects = x.s->connects; bool open = x.s->state() == QAbstractSocket::ConnectedState;
	Plan q = plan(k2, 1); issue(x.c, q, way); sx_assert(x.c.responsePending(), "the next request is accepted"); bool reused = x.s->connects == connects;
	if (reused) { sx_cover("reused"); sx_assert(open && same(p.hostname, q.hostname) && p.port == q.port, "a connection is reused only when it is open and goes to the same host and port"); } else { sx_cover("reconnected"); sx_assert(same(latin(x.s->host), latin(QString::fromLatin1(q.hostname))) && x.s->port == q.port, "connects to the URL's host and port"); base = 0; x.s->sxConnected(); }
	if (end == 1 || end == 2 || end == 3 || end == 4 || end == 5) sx_assert(!reused, "a connection that is over is not reused"); if (end == 6 && SxElapsedTimer::now > 1000 + 50 + 100) sx_assert(!reused, "a connection idle beyond the timeout is not reused");
	QByteArray out = x.s->out.mid(base); sx_out("out2", out.constData(), out.size()); sx_assert(same(out, wire(q.method, q.target, q.host, q.h, q.data)), "the next request is written exactly, with nothing left from the first");
}
// C13 for the writer: any size of anything, after anything. param: which size varies, what was written before, sizes
extern "C" void client_size() {
	int kind = int(sx_param(0)), prev = int(sx_param(1)); int n = int(sx_concrete(sx_int(sx_param(2), sx_param(3), "size"))); QByteArray m = symBytes(1, "mark"); sx_assume(m.at(0) != '\r' && m.at(0) != '\n');
	MemDevice dev; HttpRequestWriter w; w.setDevice(&dev); HttpHeaderCollection h; QByteArray data, path = "/"; QByteArray method = "PUT";
	if (prev == 1) w.post("/prev", HttpHeaderCollection() << HttpHeader("P", QByteArray(100, 'p')), QByteArray(300, 'q')); else if (prev == 2) w.put("/prev", HttpHeaderCollection() << HttpHeader("P", QByteArray(20000, 'p')), QByteArray(5000, 'q')); else if (prev == 3) w.get(QByteArray("/") + QByteArray(8150, 'u')); else if (prev == 4) { w.head("/a"); w.deleteResource("/b"); w.post("/c", HttpHeaderCollection(), QByteArray(4095, 'r')); }
	int base = dev.out.size(); if (kind == 0) { data = QByteArray(n, 'd'); if (n) data[n - 1] = m.at(0); } else if (kind == 1) h << HttpHeader("N", QByteArray(n, 'v') + m); else if (kind == 2) for (int i = 0; i < n; ++i) h << HttpHeader(QByteArray("K") + num(i), m); else if (kind == 3) path = "/" + QByteArray(n, 'x') + m; else if (kind == 4) { h << HttpHeader("N", QByteArray(n, 'v') + m); data = QByteArray(n, 'd'); } else if (kind == 5) method = QByteArray(n, 'M') + m;
	w.write(method, path, h, data); QByteArray want = method + " " + path + " HTTP/1.1\r\n"; for (int i = 0; i < h.size(); ++i) want += h.at(i).first + ": " + h.at(i).second + "\r\n"; if (!data.isEmpty()) want += "Content-Length: " + num(data.size()) + "\r\n"; want += "\r\n" + data; QByteArray out = dev.out.mid(base); sx_out_int("size", out.size());
	sx_assert(same(out, want), "the bytes written are exactly the parts"); w.get("/after"); sx_assert(same(dev.out.mid(base + want.size()), "GET /after HTTP/1.1\r\n\r\n"), "and so are those of the next request"); sx_cover("written");
}

// ---- responses: a text, and what a client must make of it
static bool headersAre(const HttpHeaderCollection &h, const Reply &r) { if (r.trailers ? h.size() < r.h.size() : h.size() != r.h.size()) return false; for (int i = 0; i < r.h.size(); ++i) if (!same(h.at(i).first, r.h.at(i).first) || !same(h.at(i).second, r.h.at(i).second)) return false; return true; }
static void checkReply(Cli &x, const Reply &r) { sx_assert(x.c.statusCode() == r.status, "the status is the one sent"); sx_assert(headersAre(x.c.headers(), r), "the headers are the ones sent"); }
static void begin(Cli &x, const Reply &r) { x.c.request(r.head ? "HEAD" : "GET", QUrl("http://h/p"), HttpHeaderCollection(), QByteArray()); x.settle(); }
// C23. param: response, number of cuts, how it ends (0 whole, 1 truncated), read buffer size, whether content is consumed as it comes
extern "C" void client_read() {
	int k = int(sx_param(0)), cuts = int(sx_param(1)), cut = int(sx_param(2)), rbs = int(sx_param(3)); Reply r = reply(k); Cli x; x.consume = sx_param(4) != 0; if (rbs) x.c.setReadBufferSize(rbs); begin(x, r); sx_assert(x.c.responsePending(), "pending"); bool checked = false;
	x.onHeaders = [&] { checkReply(x, r); }; x.onReady = [&] { QByteArray b = x.whole(); sx_assert(b.size() <= r.body.size() && sx_eq(b.constData(), r.body.constData(), b.size()), "content so far is a prefix of the body"); };
	x.onFinished = [&] { checked = true; }; QByteArray got; QByteArray b = r.bytes; int total = b.size(); if (cut) { total = int(sx_concrete(sx_int(0, b.size() - 1, "end"))); b = b.left(total); }
	int at = 0; for (int i = 0; i < cuts; ++i) { int to = int(sx_concrete(sx_int(0, total, i ? "cut2" : "cut1"))); if (to < at) sx_assume(false); x.feed(b.mid(at, to - at)); at = to; } x.feed(b.mid(at));
	bool complete = r.untilClose ? false : cut == 0; if (!r.untilClose && cut && !r.trailers && r.headEnd <= total && r.body.isEmpty() && (r.head || r.status == 204 || r.status == 304 || r.h.at(r.h.size() - 1).first != "Transfer-Encoding")) complete = true;
	if (complete) { sx_assert(x.fin == 1, "finished once the response is complete"); } else { sx_assert(x.fin == 0 && x.c.responsePending(), "not finished before the response is complete"); x.s->sxRemoteClosed(); sx_assert(x.fin == 1, "the end of the connection ends the request"); if (r.untilClose && total >= r.headEnd) complete = true; }
	sx_out("shot", x.shots.at(0).constData(), x.shots.at(0).size()); sx_assert(checked && !x.c.responsePending(), "finished");
	if (!complete) { sx_cover("cut short"); sx_assert(x.c.error() == HttpClient::RemoteHostClosedError, "an incomplete response is an error"); return; }
	sx_cover("complete"); sx_assert(x.c.error() == HttpClient::NoError, "a complete response is no error"); sx_assert(x.heads == 1, "headersCompleted once"); checkReply(x, r); QByteArray want = num(0) + " " + two(r.status) + headerLog(x.c.headers()); put(want, r.untilClose ? r.body.left(total - r.headEnd) : r.body); sx_assert(same(x.shots.at(0), want), "the body is exactly the bytes sent"); sx_assert((x.s->state() == QAbstractSocket::ConnectedState) == r.keeps, "the connection is kept exactly when it may be");
}
// C23: large bodies in up to three reads, twice on one client. param: size, framing, read buffer size, consume, number of cuts
extern "C" void client_large() {
	int size = int(sx_param(0)), framing = int(sx_param(1)), rbs = int(sx_param(2)), cuts = int(sx_param(4)); Cli x; x.consume = sx_param(3) != 0; if (rbs) x.c.setReadBufferSize(rbs);
	for (int round = 0; round < 2; ++round) {
		QByteArray body(size, 0); for (int i = 0; i < size; ++i) body[i] = char('a' + (i + i / 251 + round * 13) % 26); QByteArray m = symBytes(3, round ? "m2" : "m1"); body[0] = m.at(0); body[size / 2] = m.at(1); body[size - 1] = m.at(2); QByteArray h = "HTTP/1.1 200 OK\r\n", b;
		if (framing == 0) h += "Content-Length: " + num(size) + "\r\n\r\n", b = h + body; else if (framing == 1) { h += "Transfer-Encoding: chunked\r\n\r\n"; int k = size * 2 / 3; b = h + QByteArray::number(k, 16) + "\r\n" + body.left(k) + "\r\n" + QByteArray::number(size - k, 16).toUpper() + "\r\n" + body.mid(k) + "\r\n0\r\n\r\n"; } else h += "\r\n", b = h + body;
		x.c.get(QUrl("http://h/p")); x.settle(); static const int offs[] = { 0, 1, 100, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 16384, 65535, 65536, 131071, 131072, 131073 }; int at = 0;
		for (int i = 0; i < cuts; ++i) { int o = offs[sx_concrete(sx_int(0, 15, i ? (round ? "o22" : "o12") : round ? "o21" : "o11"))]; sx_assume(o < size); int to = h.size() + o; sx_assume(to >= at); x.feed(b.mid(at, to - at)); at = to; }
		x.feed(b.mid(at)); if (framing == 2) x.s->sxRemoteClosed(); sx_assert(x.fin == round + 1 && x.errors.at(round) == HttpClient::NoError, "finished once the response is complete"); QByteArray want = num(0) + " " + two(200) + headerLog(x.c.headers()); put(want, body); sx_out_int("shot", x.shots.at(round).size()); sx_assert(same(x.shots.at(round), want), "the body is exactly the bytes sent"); sx_cover("large");
	}
}
// C23: malformed in one place. param: where, cuts
extern "C" void client_bad() {
	int k = int(sx_param(0)); QByteArray c = symBytes(1, "bad"); char ch = c.at(0); unsigned char u = (unsigned char)ch; QByteArray b; bool digit = ch >= '0' && ch <= '9', ws = ch == ' ' || ch == '\t', eol = ch == '\r' || ch == '\n';
	switch (k) {
	case 0: sx_assume(ch != 'H' && !eol); b = c + "TTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"; break;
	case 1: sx_assume(!digit && !ws && !eol); b = "HTTP/1.1 20" + c + " OK\r\nContent-Length: 0\r\n\r\n"; break;
	case 2: sx_assume(!digit); b = "HTTP/1." + c + " 200 OK\r\nContent-Length: 0\r\n\r\n"; break;
	case 3: sx_assume(u > 126 || u < 32 || ch == '(' || ch == ')' || ch == ',' || ch == '/' || ch == ';' || ch == '<' || ch == '=' || ch == '>' || ch == '?' || ch == '@' || ch == '[' || ch == '\\' || ch == ']' || ch == '{' || ch == '}'); sx_assume(!eol); b = "HTTP/1.1 200 OK\r\nX" + c + "Y: z\r\nContent-Length: 0\r\n\r\n"; break;
	case 4: sx_assume(!digit && !ws && !eol); b = "HTTP/1.1 200 OK\r\nContent-Length: 1" + c + "\r\n\r\nxxxxxxxxxxxxxx"; break;
	case 5: sx_assume(!digit && !(lower(ch) >= 'a' && lower(ch) <= 'f') && !eol); b = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + c + "\r\nx\r\n0\r\n\r\n"; break;
	case 6: sx_assume(ch != '\r'); b = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nx" + c + "\n0\r\n\r\n"; break;
	case 7: { int i = int(sx_concrete(sx_int(1, 4, "where"))); sx_assume(ch != "HTTP/"[i]); b = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"; b[i] = ch; break; }
	case 8: sx_assume(ch != '.' && !digit); b = "HTTP/1" + c + "1 200 OK\r\nContent-Length: 0\r\n\r\n"; break;
	case 9: sx_assume(!digit && ch != ' ' && !eol); b = "HTTP/1.1 " + c + "00 OK\r\nContent-Length: 0\r\n\r\n"; break;
	case 10: sx_assume(!digit && !ws && !eol); b = "HTTP/1.1 200 OK\r\nContent-Length: " + c + "\r\n\r\nxxxxxxxxxxxxxx"; break;
	case 11: sx_assume(!digit && !(lower(ch) >= 'a' && lower(ch) <= 'f') && ch != ';' && !ws && !eol); b = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1" + c + "\r\nxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\r\n0\r\n\r\n"; break;
	}
	Cli x; x.c.get(QUrl("http://h/p")); x.settle(); int at = 0; for (int i = 0; i < int(sx_param(1)); ++i) { int to = int(sx_concrete(sx_int(0, b.size(), i ? "cut2" : "cut1"))); if (to < at) sx_assume(false); x.feed(b.mid(at, to - at)); at = to; } x.feed(b.mid(at));
	sx_assert(x.fin == 1, "a malformed response ends the request"); sx_out("shot", x.shots.at(0).constData(), x.shots.at(0).size()); sx_assert(x.errors.at(0) == HttpClient::ResponseInvalidError, "a malformed response is reported as an error"); sx_assert(x.s->state() == QAbstractSocket::UnconnectedState, "and its connection is closed"); sx_cover("malformed");
}
// what a strict reader makes of a response: 1 complete, 0 incomplete, -1 not judged
static int strict(const QByteArray &b, bool head, Msg *out) {
	Msg m = readResponse(b, 0, head); if (!m.ok) { *out = m; return -1; } const QByteArray &l = m.startLine; if (l.size() < 12 || !starts(l, "HTTP/1.1 ")) return -1; for (int i = 9; i < 12; ++i) if (l.at(i) < '0' || l.at(i) > '9') return -1; if (l.at(9) < '2') return -1; if (l.size() > 12 && l.at(12) != ' ') return -1; for (int i = 12; i < l.size(); ++i) { unsigned char c = (unsigned char)l.at(i); if (c < 32) return -1; }
	static const char seps[] = "()<>@,;:\\\"/[]?={} \t"; for (int i = 0; i < m.headers.size(); ++i) { const QByteArray &n = m.headers.at(i).first, &v = m.headers.at(i).second; for (int j = 0; j < n.size(); ++j) { unsigned char c = (unsigned char)n.at(j); if (c <= 32 || c >= 127) return -1; for (const char *p = seps; *p; ++p) if (n.at(j) == *p) return -1; }
		if (v.isEmpty()) return -1; for (int j = 0; j < v.size(); ++j) { unsigned char c = (unsigned char)v.at(j); if (c < 32) return -1; } if (v.at(v.size() - 1) == ' ') return -1; if (ciEqual(n, "upgrade") || ciEqual(n, "transfer-encoding")) if (!(ciEqual(n, "transfer-encoding") && m.chunked)) return -1; }
	*out = m; if (m.untilClose) return 0; return m.complete ? 1 : 0;
}
// C23: arbitrary bytes anywhere. param: response, window, insert, cut
extern "C" void client_window() {
	int k = int(sx_param(0)), w = int(sx_param(1)), ins = int(sx_param(2)); Reply r; static const char *const texts[] = { "HTTP/1.1 200 OK\r\nX: y\r\nContent-Length: 3\r\n\r\nabc", "HTTP/1.1 404 Not Found\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n", "HTTP/1.0 200 OK\r\nConnection: close\r\nVary: a\r\n\r\nabc", "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx", "HTTP/1.1 200 OK\r\nUpgrade: h2\r\nConnection: keep-alive\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1;a=b\r\nx\r\n0\r\nT: u\r\n\r\n" };
	QByteArray b = texts[k]; int at = int(sx_concrete(sx_int(0, b.size() - (ins ? 0 : w), "at"))); QByteArray s = symBytes(w, "w"); b = b.left(at) + s + b.mid(at + (ins ? 0 : w));
	Cli x, y; x.c.get(QUrl("http://h/p")); x.settle(); y.c.get(QUrl("http://h/p")); y.settle(); x.feed(b); bool done = x.fin == 1; QByteArray lone = x.c.content(); if (!done) x.s->sxRemoteClosed(); sx_assert(x.fin == 1, "finishes once"); sx_out("shot", x.shots.at(0).constData(), x.shots.at(0).size());
	int cut = int(sx_concrete(sx_int(at > 2 ? at - 2 : 0, at + w + 2 < b.size() ? at + w + 2 : b.size(), "cut"))); y.feed(b.left(cut)); y.feed(b.mid(cut)); sx_assert((y.fin == 1) == done, "the outcome does not depend on how the bytes are cut"); if (!done) y.s->sxRemoteClosed();
	sx_assert(y.fin == 1 && x.errors.at(0) == y.errors.at(0), "the outcome does not depend on how the bytes are cut"); if (x.errors.at(0) == HttpClient::NoError) sx_assert(same(x.shots.at(0), y.shots.at(0)), "the response does not depend on how the bytes are cut"); Msg m; int st = strict(b, false, &m);
	if (st == 1) { sx_cover("well-formed"); sx_assert(done && x.errors.at(0) == HttpClient::NoError, "a well-formed response is accepted"); QByteArray want = num(0) + " " + two(m.status()) + num(m.headers.size()); for (int i = 0; i < m.headers.size(); ++i) { put(want, m.headers.at(i).first); put(want, m.headers.at(i).second); } if (m.count("trailer") == 0 && k != 5) { put(want, m.body); sx_assert(same(x.shots.at(0), want), "status, headers and body are exact"); } }
	else if (st == 0 && !m.untilClose) { sx_cover("incomplete"); sx_assert(x.errors.at(0) != HttpClient::NoError, "an incomplete response is not reported as complete"); }
	else if (st == 0) { sx_cover("until close"); sx_assert(!done && x.errors.at(0) == HttpClient::NoError, "the end of the connection completes a response without other delimiter"); } else sx_cover("not judged");
}

// ---- C24: any sequence of steps of the network and the application, some of them from within a notification
struct Life {
	Cli x; int accepted, kinds[8]; int outstanding; bool queued; QByteArray text; int at, headEnd; bool head, untilClose, whole, gone; int sent; int reKind, reWhat; bool fired; int serial;
	// what the server answers to the n-th request
	int kind; Life(int k) : accepted(0), outstanding(0), queued(false), at(0), headEnd(0), head(false), untilClose(false), whole(false), gone(false), sent(0), reKind(0), reWhat(0), fired(false), serial(0), kind(k) {}
	void answer(int n) {
		head = false; untilClose = false; at = 0; sent = 0; gone = false; QByteArray tag = num(n);
		static const char *const heads[] = { "HTTP/1.1 200 OK\r\nContent-Length: 2\r\nN: ", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nN: ", "HTTP/1.0 200 OK\r\nN: ", "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 100 Continue\r\nI: j\r\n\r\nHTTP/1.1 201 Created\r\nContent-Length: 1\r\nN: ", "HTTP/1.1 302 Found\r\nContent-Length: 0\r\nlocation: /next\r\nN: ", "HTTP/1.1 200 OK\r\nContent-Length: 2\r\nN: ", "HTTP/1.1 200 OK\r\nContent-Length: z\r\nN: ", "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 0\r\nN: " };
		int k = n == 0 ? kind : n == 1 ? (kind + 1) % 8 : 0; if (k == 5) head = true; if (k == 2) untilClose = true; text = heads[k] + tag + "\r\n\r\n"; headEnd = text.size(); text += k == 0 ? "ab" : k == 1 ? "1\r\nA\r\n1\r\nB\r\n0\r\n\r\n" : k == 2 ? "until" : k == 3 ? "c" : ""; bad = k == 6;
	}
	bool bad;
	// has the server delivered all of a response?
	bool complete() const { return !bad && (untilClose ? gone && sent >= headEnd : sent >= text.size()); }
	void accept(bool later) { ++accepted; ++outstanding; if (later) queued = true; }
	void request(int way) { // from outside any notification
		bool free = outstanding == 0; int fin = x.fin; if (free) { accept(false); answer(serial++); } x.c.request(head && free ? "HEAD" : "GET", QUrl("http://h/p"), HttpHeaderCollection(), QByteArray());
		if (free) { sx_assert(x.c.responsePending() || x.fin > fin, "an accepted request is pending"); } else sx_assert(x.fin == fin, "a refused request has no effect"); (void)way; settle();
	}
	void settle() { // the connection is made, and the request of a notification is carried out by now
		sx_process_events(); if (x.s->state() == QAbstractSocket::ConnectingState) x.s->sxConnected(); if (queued) { queued = false; sx_assert(x.c.responsePending(), "a request made from a notification is carried out after the current one"); sx_cover("carried out later"); }
	}
	void inside(int where) { // an action of the application from within a notification
		if (fired || reKind != where) return; fired = true; int fin = x.fin; bool pending = x.c.responsePending();
		switch (reWhat) {
		case 1: x.c.abort(); if (pending) sx_assert(x.fin == fin + 1, "an aborted request has finished"); break;
		case 2: { bool ok = !pending && outstanding == 0; if (ok) { accept(true); answer(serial++); } x.c.request(head && ok ? "HEAD" : "GET", QUrl("http://h/p"), HttpHeaderCollection(), QByteArray()); sx_assert(x.fin == fin, "a refused request has no effect"); break; }
		case 3: if (pending) { x.c.abort(); sx_assert(x.fin == fin + 1, "an aborted request has finished"); accept(true); answer(serial++); x.c.request(head ? "HEAD" : "GET", QUrl("http://h/p"), HttpHeaderCollection(), QByteArray()); } break;
		case 4: x.c.consumeContent(); break;
		case 5: { bool ok = !pending && outstanding == 0 && x.c.redirected(); if (ok) { accept(true); answer(serial++); head = false; text = "HTTP/1.1 200 OK\r\nContent-Length: 2\r\nN: r\r\n\r\nok"; headEnd = text.size() - 2; untilClose = bad = false; } x.c.followRedirection(); break; }
		case 6: { bool ok = !pending && outstanding == 0; QUrl other("http://other/p"); if (ok) { accept(true); answer(serial++); } x.c.request(head && ok ? "HEAD" : "GET", other, HttpHeaderCollection(), QByteArray()); break; }
		case 7: { bool ok = !pending && outstanding == 0; if (ok) { accept(true); answer(serial++); } x.c.request(head && ok ? "HEAD" : "GET", QUrl("http://h/p"), HttpHeaderCollection(), QByteArray()); if (ok) x.c.get(QUrl("http://h/refused")); break; }
		}
	}
	bool aborting; int cause; // cause: 0 data, 1 remote close, 2 network error, 3 abort
	void run(int rk, int rw) {
		reKind = rk; reWhat = rw; cause = 0; bad = false;
		x.onHeaders = [this] { sx_assert(outstanding == 1 && x.c.responsePending(), "headersCompleted belongs to a pending request"); sx_assert(x.headsHere == 1, "headersCompleted at most once"); sx_assert(x.c.statusCode() != 100, "interim responses are hidden"); inside(1); };
		x.onReady = [this] { sx_assert(outstanding == 1 && x.c.responsePending(), "contentReadyRead belongs to a pending request"); inside(2); };
		x.onFinished = [this] {
			sx_assert(outstanding == 1, "exactly one finished for each accepted request"); --outstanding; sx_assert(!x.c.responsePending(), "a finished request is not pending"); int e = x.c.error(); bool c = complete() || (head && sent >= headEnd);
			if (e == HttpClient::NoError) { sx_cover("succeeded"); sx_assert(c, "no error only if a complete response was received"); } else { sx_cover("failed"); if (cause == 0 && e != HttpClient::AbortedError) sx_assert(e == HttpClient::ResponseInvalidError && bad, "a response that is not malformed does not fail by itself"); if (cause == 1 && !bad && e != HttpClient::AbortedError) sx_assert(e == HttpClient::RemoteHostClosedError && !c, "the server closing early is reported so"); if (cause == 2 && e != HttpClient::AbortedError) sx_assert(e == HttpClient::NetworkError, "network errors are reported so"); if (cause == 3) sx_assert(e == HttpClient::AbortedError, "an abort is reported so"); }
			inside(3); };
	}
	void feed(int n) { if (x.s->state() != QAbstractSocket::ConnectedState || outstanding == 0) return; int before = at; int left = text.size() - at; if (n > left) n = left; if (n == 0) return; cause = 0; int ser = serial; sent = before + n; at = sent; QByteArray b = text.mid(before, n); x.feed(b); (void)ser; settle(); }
	void step(int what) {
		switch (what) {
		case 0: feed(int(sx_concrete(sx_int(1, 3, "few")))); break;
		case 1: feed(headEnd - at > 0 ? headEnd - at : 1000); break;
		case 2: feed(1000); break;
		case 3: if (x.s->state() != QAbstractSocket::ConnectedState) break; cause = 1; gone = true; x.s->sxRemoteClosed(); settle(); break;
		case 4: cause = 2; x.s->sxFail(QAbstractSocket::NetworkError); settle(); break;
		case 5: { cause = 3; bool p = x.c.responsePending(); int fin = x.fin; x.c.abort(); sx_assert(x.fin == fin + (p ? 1 : 0) || (reKind == 3 && x.fin > fin), "abort finishes a pending request"); settle(); break; }
		case 6: request(0); break;
		case 7: if (x.s->state() == QAbstractSocket::ConnectedState && outstanding == 0) x.feed("HTTP/1.1 408 Timeout\r\n\r\n"); settle(); break;
		}
	}
	void end() { // whatever is still pending ends when the connection does
		for (int i = 0; i < 3 && outstanding; ++i) { cause = 1; gone = true; if (x.s->state() == QAbstractSocket::ConnectedState) x.s->sxRemoteClosed(); settle(); } sx_assert(outstanding == 0 && x.fin == accepted && !x.c.responsePending(), "every accepted request finishes exactly once"); sx_out_int("accepted", accepted); for (int i = 0; i < x.errors.size(); ++i) sx_out_int("error", x.errors.at(i));
	}
};
// param: first answer, notification, action in it, steps, first step
extern "C" void client_life() {
	Life l(int(sx_param(0))); l.run(int(sx_param(1)), int(sx_param(2))); l.request(0); int n = int(sx_param(3)), first = int(sx_param(4)); for (int i = 0; i < n; ++i) { static const char *const names[] = { "s0", "s1", "s2", "s3", "s4", "s5" }; l.step(i == 0 && first >= 0 ? first : int(sx_concrete(sx_int(0, 7, names[i])))); } l.end(); sx_cover("ended");
}

// ---- C25: whatever became of the first response, the second is exactly itself. param: first, how it ended, second, cut of the second
static QByteArray zipped(int n, const char *name) { QByteArray r("\x1f\x8b", 2); QByteArray d = symBytes(n, name); for (int i = 0; i < n; ++i) sx_assume((unsigned char)d.at(i) < 0xf0); return r + d; }
static QByteArray first25(int k, bool *head) {
	*head = k == 5; switch (k) {
	case 0: return "HTTP/1.1 200 OK\r\nContent-Length: 4\r\nX-First: one\r\n\r\nabcd";
	case 1: return "HTTP/1.1 404 Not Found\r\nX-First: one\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\nTrail: er\r\n\r\n";
	case 2: { QByteArray z = zipped(2, "z") + "\xfe"; return "HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: " + num(z.size()) + "\r\n\r\n" + z; }
	case 3: return "HTTP/1.0 200 OK\r\nX-First: one\r\n\r\nuntil close";
	case 4: return "HTTP/1.1 100 Continue\r\nX-Interim: y\r\n\r\nHTTP/1.1 302 Found\r\nLocation: /elsewhere\r\nContent-Length: 3\r\n\r\nabc";
	case 5: return "HTTP/1.1 200 OK\r\nX-First: one\r\nContent-Encoding: gzip\r\nContent-Length: 300\r\n\r\n";
	case 6: return "HTTP/1.1 200 OK\r\nX-First: one\r\nBad(: \r\n\r\n";
	case 7: return "HTTP/1.1 200 OK\r\nX-First: \r\n folded\r\nContent-Length: 1\r\n\r\nx";
	case 8: return "HTTP/1.0 200\r\n\r\n";
	case 9: return "HTTP/1.1 204 No\r\n\r\n";
	}
	return QByteArray();
}
extern "C" void client_after() {
	int k1 = int(sx_param(0)), how = int(sx_param(1)), k2 = int(sx_param(2)), cuts = int(sx_param(3)); bool head; QByteArray b = first25(k1, &head); Cli x; int total = how == 0 ? b.size() : int(sx_concrete(sx_int(0, b.size(), "end"))); int when = how >= 4 ? how - 3 : 0; // 4 abort in headersCompleted, 5 in contentReadyRead, 6 in finished
	bool acted = false, again = false; Reply r = reply(k2, 1); auto next = [&] { again = true; x.c.request(r.head ? "HEAD" : "GET", QUrl(how == 7 || how == 8 ? "http://h2/q" : "http://h/q"), HttpHeaderCollection(), QByteArray()); };
	x.onHeaders = [&] { if (when == 1 && !acted) { acted = true; x.c.abort(); } }; x.onReady = [&] { if (when == 2 && !acted) { acted = true; x.c.abort(); } }; x.onFinished = [&] { if ((when == 3 || how == 8) && !acted) { acted = true; next(); } };
	if (how == 7) total = b.size(); x.c.request(head ? "HEAD" : "GET", QUrl("http://h/p"), HttpHeaderCollection(), QByteArray()); x.settle(); x.feed(b.left(total)); if (how == 2) x.s->sxRemoteClosed(); else if (how == 1) x.c.abort(); else if (how == 3) x.s->sxFail(QAbstractSocket::NetworkError); if (!again) { if (x.c.responsePending()) x.s->sxRemoteClosed(); }
	sx_process_events(); sx_assert(x.fin == 1, "the first request ended"); if (!again) { sx_assert(!x.c.responsePending(), "not pending"); next(); } if (x.s->state() == QAbstractSocket::ConnectingState) x.s->sxConnected(); sx_assert(x.c.responsePending(), "the second request is under way");
	sx_assert(x.c.error() == HttpClient::NoError && x.c.headers().isEmpty() && x.c.content().isEmpty(), "nothing of the first response is left"); int heads = x.heads; x.onHeaders = [&] { checkReply(x, r); sx_assert(x.c.content().isEmpty(), "no content with the headers"); }; x.onFinished = nullptr; x.onReady = nullptr;
	QByteArray t = r.bytes; int at = 0; if (cuts) { at = int(sx_concrete(sx_int(0, t.size(), "cut"))); x.feed(t.left(at)); } x.feed(t.mid(at)); if (r.untilClose) x.s->sxRemoteClosed(); sx_assert(x.fin == 2, "the second request finishes"); sx_assert(x.heads == heads + 1, "headersCompleted once");
	sx_out("shot", x.shots.at(1).constData(), x.shots.at(1).size()); sx_assert(x.c.error() == HttpClient::NoError, "without error"); checkReply(x, r); QByteArray want = num(0) + " " + two(r.status) + headerLog(x.c.headers()); put(want, r.body); sx_assert(same(x.shots.at(1), want), "the response is exactly its own"); sx_cover("second");
}
// ---- C26
extern "C" void client_redirect() {
	int k = int(sx_param(0)); Cli x; QByteArray url = "http://h:81/a/b?x=1", status = "302", name = "Location", loc, host = "h", target; int port = 81; HttpHeaderCollection h; h << HttpHeader("K", "v") << HttpHeader("L", symText(1, "kept")); QByteArray method = "GET", data; bool gray = false;
	switch (k) {
	case 0: status = digits(3, "status", '2'); loc = "http://h:81/n"; target = "/n"; sx_assume(status.at(0) <= '5' && !same(status, "204")); break;
	case 1: { name = symBytes(8, "name"); for (int i = 0; i < 8; ++i) { char c = name.at(i); sx_assume((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')); } loc = "http://h:81/n"; target = "/n"; gray = !ciEqual(name, "location"); break; }
	case 2: { QByteArray p = symText(2, "path", "%?#\"<>\\^`{|}./"); loc = "/" + p; target = "/" + p; break; }
	case 3: { QByteArray p = symText(2, "path", "%?#\"<>\\^`{|}./:"); loc = p; target = "/a/" + p; break; }
	case 4: { QByteArray p = symText(1, "path", "%?#\"<>\\^`{|}./"); loc = "http://o" + QByteArray("/") + p; host = "o"; port = 80; target = "/" + p; break; }
	case 5: loc = "//o:8080/z?y=" + symText(1, "q", "%?#\"<>\\^`{|}[]"); host = "o"; port = 8080; target = loc.mid(8); break;
	case 6: { QByteArray q = symText(2, "q", "%?#\"<>\\^`{|}[]"); loc = "?" + q; target = "/a/b?" + q; break; }
	case 7: { static const char *const rel[] = { "../c", "./c", "c/", "..", "../../c", "c/../d", ".", "/./c/../d" }, *const abs[] = { "/c", "/a/c", "/a/c/", "/", "/c", "/a/d", "/a/", "/d" }; int i = int(sx_concrete(sx_int(0, 7, "which"))); loc = rel[i]; target = abs[i]; break; }
	case 8: method = "POST"; data = symBytes(2, "data"); loc = "/n"; target = "/n"; status = "307"; break;
	case 9: loc = "/n#frag"; target = "/n"; break;
	case 10: { loc = "/a%2" + symText(1, "path"); char c = loc.at(4); sx_assume((c >= '0' && c <= '9') || (c >= 'A' && c <= 'C')); target = loc; break; }
	case 11: loc = "http://o"; host = "o"; port = 80; target = "/"; break;
	case 12: name = "X-" + field(3, "name") + "ation"; loc = "http://h:81/n"; gray = true; break;
	case 13: url = "http://h:81"; loc = "n"; target = "/n"; break;
	case 14: method = symText(2, "verb", ":"); loc = "http://h:81/n?" + symText(1, "q", "%?#\"<>\\^`{|}[]"); target = loc.mid(11); break;
	}
	x.c.request(method, QUrl::fromEncoded(url), h, data); x.settle(); x.feed("HTTP/1.1 " + status + " Reason\r\nA: b\r\n" + name + ": " + loc + "\r\nContent-Length: 0\r\n\r\n"); sx_assert(x.fin == 1 && x.c.error() == HttpClient::NoError, "the response is received");
	bool red = same(status, "300") || same(status, "301") || same(status, "302") || same(status, "303") || same(status, "307"); sx_assert(x.c.redirected() == red, "a redirect is a status of 300, 301, 302, 303 or 307"); if (gray) { sx_assert(x.c.redirectionLocation().isEmpty(), "only Location names the target"); return; } sx_assert(same(x.c.redirectionLocation(), loc), "the target is the Location value");
	int connects = x.s->connects, base = x.s->out.size(); x.c.followRedirection(); if (!red) { sx_cover("no redirect"); sx_assert(!x.c.responsePending() && x.s->connects == connects && x.s->out.size() == base, "nothing is sent when there is no redirect"); return; }
	sx_cover("followed"); sx_assert(x.c.responsePending(), "the redirect is followed"); if (x.s->connects != connects) { base = 0; x.settle(); } sx_assert(same(latin(x.s->host), latin(QString::fromLatin1(host))) && x.s->port == port, "to the right host"); QByteArray out = x.s->out.mid(base); sx_out("out", out.constData(), out.size());
	sx_assert(same(out, wire(method, target, port == 80 ? host : host + ":" + num(port), h, data)), "one request with the same method, headers and body to the target"); x.feed("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"); sx_assert(x.fin == 2 && x.c.error() == HttpClient::NoError && same(x.c.content(), "ok"), "its response is received"); sx_assert(!x.c.redirected(), "which is no redirect");
}
// ---- C27. param: expansion, bytes, cuts, kind, framing
extern "C" void client_gzip() {
	int n = int(sx_param(1)), cuts = int(sx_param(2)), kind = int(sx_param(3)), framing = int(sx_param(4)); zFactor = int(sx_param(0)); Cli x; QByteArray enc = "gzip", name = "Content-Encoding"; QByteArray d = symBytes(n, "data"), z, want; bool coded = true; int fail = -1;
	z = QByteArray("\x1f\x8b", 2) + d; for (int i = 0; i < n; ++i) { unsigned char c = (unsigned char)d.at(i); if (kind == 1) sx_assume(c < 0xf0 || c == 0xff); else sx_assume(c < 0xf0); }
	if (kind == 0) z += "\xfe"; else if (kind == 1) z += "\xfe"; else if (kind == 2) { enc = symBytes(4, "enc"); for (int i = 0; i < 4; ++i) { char c = enc.at(i); sx_assume(c > 32 && c < 127); } coded = ciEqual(enc, "gzip"); z += "\xfe"; } else if (kind == 3) { name = "Content-Encodin" + symText(1, "name", ":"); char c = name.at(15); sx_assume(c != '(' && c != ')' && c != ',' && c != '/' && c != ';' && c != '<' && c != '=' && c != '>' && c != '?' && c != '@' && c != '[' && c != '\\' && c != ']' && c != '{' && c != '}' && c != '"'); coded = lower(c) == 'g'; z += "\xfe"; } else if (kind == 4) { z += "\xfe"; z += "trailing"; } else if (kind == 5) enc = "gzip"; else if (kind == 6) { z = d; if (n) { unsigned char c = (unsigned char)d.at(0); sx_assume(c != 0x1f); } } else if (kind == 7) { name = "X"; coded = false; z += "\xfe"; }
	QByteArray start = "HTTP/1.1 200 OK\r\n" + name + ": " + enc + "\r\n", b; QVector<int> marks; // positions of body bytes
	if (framing == 0) { b = start + "Content-Length: " + num(z.size()) + "\r\n\r\n"; for (int i = 0; i < z.size(); ++i) marks.append(b.size() + i); b += z; } else if (framing == 1) { b = start + "Transfer-Encoding: chunked\r\n\r\n"; int h = z.size() / 2; b += num(h) + "\r\n"; for (int i = 0; i < h; ++i) marks.append(b.size() + i); b += z.left(h) + "\r\n" + num(z.size() - h) + "\r\n"; for (int i = h; i < z.size(); ++i) marks.append(b.size() + i - h); b += z.mid(h) + "\r\n0\r\n\r\n"; } else { b = start + "\r\n"; for (int i = 0; i < z.size(); ++i) marks.append(b.size() + i); b += z; }
	x.consume = sx_param(5) != 0; x.c.get(QUrl("http://h/p")); x.settle(); QVector<int> pieces; int at = 0; int lo = marks.at(0) - 2; for (int i = 0; i < cuts; ++i) { int to = int(sx_concrete(sx_int(lo, b.size(), i == 0 ? "cut1" : i == 1 ? "cut2" : "cut3"))); if (to < at) sx_assume(false); pieces.append(to); x.feed(b.mid(at, to - at)); at = to; } pieces.append(b.size()); x.feed(b.mid(at)); if (framing == 2) x.s->sxRemoteClosed();
	sx_assert(x.fin == 1 && x.errors.at(0) == HttpClient::NoError, "the response is received"); sx_assert(zOpen == 0, "the decoder is released");
	// which piece each body byte came in
	QVector<int> of; for (int i = 0; i < marks.size(); ++i) { int p = 0; while (marks.at(i) >= pieces.at(p)) ++p; of.append(p * 2 + (framing == 1 && i >= z.size() / 2 ? 1 : 0)); }
	if (!coded) want = z; else {
		int bad = -1; for (int i = 0; i < z.size() && bad < 0; ++i) { unsigned char c = (unsigned char)z.at(i); if (i < 2 ? c != (i ? 0x8b : 0x1f) : c == 0xff) bad = i; if (i >= 2 && c == 0xfe) break; } fail = bad; int from = bad < 0 ? z.size() : bad; if (bad >= 0) while (from > 0 && of.at(from - 1) == of.at(bad)) --from;
		for (int i = 2; i < from; ++i) { unsigned char c = (unsigned char)z.at(i); if (c == 0xfe) break; want += QByteArray(zFactor, char(c)); } want += z.mid(from);
	}
	if (fail >= 0) sx_cover("corrupt"); else sx_cover(coded ? "decoded" : "untouched"); QByteArray w = num(0) + " " + two(200) + headerLog(x.c.headers()); put(w, want); sx_out_int("size", x.shots.at(0).size()); sx_assert(same(x.shots.at(0), w), coded ? "the content is exactly the decoder's output" : "other encodings are delivered untouched");
}
