// C29: the two parsers on arbitrary bytes, in every state their texts lead through, whole and in pieces. Buffers have the
// exact size of the text, so any access outside it is seen.
#include "common.h"
#define private public
#include "HttpClient.h"
#undef private
using namespace Pillow;
static char *exact(const QByteArray &b, bool nul) { char *p = (char *)malloc(size_t(b.size() + (nul ? 1 : b.size() ? 0 : 1))); memcpy(p, b.constData(), size_t(b.size())); if (nul) p[b.size()] = 0; return p; }
// ---- responses
struct RP : HttpResponseParser {
	QByteArray log, body; int events, at, what; bool done, inside; const char *lo, *hi;
	RP() : events(0), at(-1), what(0), done(false), inside(false), lo(0), hi(0) {}
	void act() {
		sx_assert(isParsing(), "parsing during a callback"); if (events++ != at) return; done = true;
		if (what == 1) pause(); else if (what == 2) clear(); else if (what == 3) { sx_assert(inject("HTTP/1.1 ", 9) == 0, "injecting from a callback is refused"); injectEof(); sx_assert(isParsing(), "still parsing"); } else if (what == 4) { pause(); inject("x", 1); }
	}
	void messageBegin() { HttpResponseParser::messageBegin(); body.clear(); log.append('B'); act(); }
	void headersComplete() { log.append('H'); log.append(char(statusCode() >> 8)); log.append(char(statusCode())); log.append(char(httpMajor())); log.append(char(httpMinor())); log.append(num(headers().size())); for (int i = 0; i < headers().size(); ++i) { put(log, headers().at(i).first); put(log, headers().at(i).second); } act(); }
	void messageContent(const char *d, int n) { sx_assert(n >= 0 && d >= lo && d + n <= hi, "content lies within the text"); HttpResponseParser::messageContent(d, n); body.append(d, n); act(); }
	void messageComplete() { log.append('C'); put(log, body); log.append(shouldKeepAlive() ? 'k' : 'c'); act(); }
	// a text from the network, in a buffer of its own
	int feed(const QByteArray &t) {
		char *p = exact(t, false); int n = t.size(), pos = 0, idle = 0; lo = p; hi = p + n; while (pos < n && !hasError()) { int r = inject(p + pos, n - pos); sx_assert(r >= 0 && r <= n - pos, "consumes a part of the text"); sx_assert(!isParsing(), "not parsing afterwards"); pos += r; if (r == 0 && !hasError()) { sx_assert(++idle < 5, "makes progress"); } }
		free(p); return pos;
	}
	QByteArray state() const { QByteArray r; long v[] = { parser.type, parser.flags, parser.state, parser.header_state, parser.index, long(parser.nread), long(parser.content_length), parser.http_errno, parser.upgrade, _lastWasValue, parser.http_major, parser.http_minor, parser.status_code }; r = QByteArray((const char *)v, sizeof v); put(r, _field); put(r, _value); put(r, body); r.append(num(_headers.size())); return r; }
};
static QByteArray responseText(int k) {
	switch (k) {
	case 0: return "HTTP/1.1 200 OK\r\nContent-Length: 12\r\n\r\nhelloworld!!HTT";
	case 1: return "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\na;x=y\r\nabcdefghij\r\n0\r\nT: v\r\n\r\nHT";
	case 2: return "HTTP/1.0 404 Not Found\r\nConnection: keep-alive\r\nProxy-Connection: close\r\nUpgrade: x\r\nX:\r\n y\r\n\r\n";
	case 3: return "\r\nHTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 304 \r\n\r\n";
	case 4: return "HTTP/1.1 200 OK\nA: b\nC:\td\n e\n\n";
	case 5: return "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 3\r\n\r\nabc\r\nHTTP";
	case 6: return "HTTP/1.1 200 OK\r\n\r\nuntil close";
	case 7: return "HTTP/1.1 101 Switching\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\nraw";
	case 8: return "HTTP/1.1 204 No\r\nTransfer-Encoding: chunked\r\nContent-Length: 18446744073709551614\r\n\r\n";
	case 9: return "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n7ffffffffffffff0\r\nab";
	case 10: return "HTTP/1.1 200\r\nTransfer-Encoding: chunkedx\r\nTransfer-Encoding: chunked \r\n\r\n0\r\n\r\n";
	case 11: return "HTTP/12.345 299 ?\r\nContent-Length: 9223372036854775809\r\nconnection:Close \r\nTRANSFER-encoding:\tchunked\r\n\r\n1\r\nx\r\n";
	case 12: return "HTTP/1.1 200 OK\r\nA: " + QByteArray(81880, 'v') + "\r\nB: cdefghijklm\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx";
	}
	return QByteArray();
}
// Bytes at some position of a text: param 0 text, 1 how many, 2 inserted rather than replacing, 3 position from, 4 to, 5 pieces (0 cut near the bytes, 1 byte by byte)
static QByteArray disturbed(const QByteArray &t, int n, bool insert, int from, int to, int *pos) {
	int last = insert ? t.size() : t.size() - n; if (to < last) last = to; *pos = int(sx_concrete(sx_int(from, last, "pos"))); QByteArray m = symBytes(n, "bytes"); return t.left(*pos) + m + t.mid(insert ? *pos : *pos + n);
}
extern "C" void parser_response() {
	QByteArray t = responseText(int(sx_param(0))); int n = int(sx_param(1)), pos; bool insert = sx_param(2) != 0; t = disturbed(t, n, insert, int(sx_param(3)), int(sx_param(4)), &pos); RP a; int end = pos + n + int(sx_param(5)); if (end > t.size()) end = t.size(); t = t.left(end); int used = a.feed(t);
	if (a.hasError()) sx_cover("error"); else { sx_cover("accepted"); sx_assert(used == t.size(), "everything is consumed"); }
	RP b; if (sx_param(6)) { int u = 0; for (int i = 0; i < t.size(); ++i) u += b.feed(t.mid(i, 1)); if (!b.hasError()) sx_assert(u == t.size(), "everything is consumed"); } else { int lo = pos - 1; if (lo < 0) lo = 0; int hi = pos + n + 1; if (hi > t.size()) hi = t.size(); int cut = int(sx_concrete(sx_int(lo, hi, "cut"))); int u = 0; if (cut) u += b.feed(t.left(cut)); if (cut < t.size()) u += b.feed(t.mid(cut)); }
	sx_assert(a.error() == b.error(), "the same outcome in pieces as joined"); sx_out_int("error", a.error()); if (!a.hasError()) { sx_out("log", a.log.constData(), a.log.size()); sx_assert(same(a.log, b.log), "the same messages in pieces as joined"); sx_assert(same(a.state(), b.state()), "the same state in pieces as joined"); }
	// the end of the connection, wherever it comes
	int e = a.events; bool needs = a.completesOnEof(); (void)needs; a.lo = a.hi = 0; a.injectEof(); sx_assert(!a.isParsing(), "not parsing afterwards"); b.injectEof(); sx_assert(a.error() == b.error(), "the same outcome of the end in pieces as joined"); if (!a.hasError()) { sx_cover(a.events > e ? "ended by end of connection" : "clean end"); sx_assert(same(a.log, b.log), "the same messages"); }
	QByteArray desc = a.errorString(); sx_assert(desc.size() > 0, "the outcome has a description");
	// afterwards a cleared parser is like new
	a.clear(); a.log.clear(); a.events = 0; RP c; QByteArray x("HTTP/1.1 200 OK\r\nA: b\r\nContent-Length: 2\r\n\r\nok"); a.feed(x); c.feed(x); sx_assert(same(a.log, c.log) && !a.hasError() && same(a.state(), c.state()), "a cleared parser is like a new one");
}
// Pausing, clearing and injecting from any callback. param: text, what (see act), arbitrary bytes
extern "C" void parser_callbacks() {
	QByteArray t = responseText(int(sx_param(0))); int n = int(sx_param(2)), pos; t = disturbed(t, n, false, int(sx_param(3)), int(sx_param(4)), &pos); RP a; a.feed(t); int total = a.events; if (total == 0) { sx_cover("no callback"); return; } RP b; b.what = int(sx_param(1)); b.at = int(sx_concrete(sx_int(0, total - 1, "at"))); b.feed(t); sx_assert(b.done, "the callback happened"); sx_cover("acted");
	if (b.what != 2) { sx_assert(a.error() == b.error(), "the same outcome"); if (!a.hasError()) { sx_assert(same(a.log, b.log), "the same messages"); sx_assert(same(a.state(), b.state()), "the same state"); } }
	b.clear(); b.log.clear(); b.at = -1; RP c; QByteArray x("HTTP/1.1 200 OK\r\nA: b\r\nContent-Length: 2\r\n\r\nok"); b.feed(x); c.feed(x); sx_assert(same(b.log, c.log) && !b.hasError(), "a cleared parser is like a new one");
}
// ---- requests: the generated parser, called the way its header asks for
namespace thin {
typedef void (*element_cb)(void *data, const char *at, size_t length);
typedef void (*field_cb)(void *data, const char *field, size_t flen, const char *value, size_t vlen);
struct http_parser { int cs; size_t body_start; int content_len; size_t nread, mark, field_start, field_len, query_start; void *data; field_cb http_field; int start_len[12]; element_cb header_done; };
extern "C" int thin_http_parser_init(struct http_parser *); extern "C" size_t thin_http_parser_execute(struct http_parser *, const char *, size_t, size_t); extern "C" int thin_http_parser_finish(struct http_parser *); extern "C" int thin_http_parser_has_error(struct http_parser *); extern "C" int thin_http_parser_is_finished(struct http_parser *);
}
struct TP {
	thin::http_parser p; const char *buf; size_t len; QByteArray log; bool done;
	TP() : buf(0), len(0), done(false) { memset(&p, 0, sizeof p); thin::thin_http_parser_init(&p); p.data = this; p.http_field = field; p.header_done = headerDone; }
	static void field(void *d, const char *f, size_t fl, const char *v, size_t vl) { TP *t = (TP *)d; sx_assert(f >= t->buf && fl <= t->len && f + fl <= t->buf + t->len && v >= t->buf && vl <= t->len && v + vl <= t->buf + t->len, "a header lies within the text"); t->log.append('F'); put(t->log, QByteArray(f, int(sx_concrete(long(fl))))); put(t->log, QByteArray(v, int(sx_concrete(long(vl))))); }
	static void headerDone(void *d, const char *at, size_t n) { TP *t = (TP *)d; t->done = true; sx_assert(at >= t->buf && n <= t->len && at + n == t->buf + t->len, "the rest lies within the text"); t->log.append('D'); }
	void feed(const QByteArray &t) { // the whole text so far
		char *b = exact(t, true); buf = b; len = size_t(t.size()); if (p.nread < len && !over()) { size_t r = thin::thin_http_parser_execute(&p, b, len, p.nread); sx_assert(r == p.nread && r <= len, "reads a part of the text"); check(); } free(b);
	}
	bool over() { return thin::thin_http_parser_has_error(&p) || thin::thin_http_parser_is_finished(&p); }
	void check() {
		sx_assert(p.body_start <= len && p.mark < len && p.field_start < len && p.field_len <= len, "positions within the text"); if (thin::thin_http_parser_has_error(&p)) { sx_assert(thin::thin_http_parser_finish(&p) == -1, "reports the error"); return; }
		for (int i = 0; i < 12; i += 2) sx_assert(p.start_len[i] >= 0 && p.start_len[i + 1] >= 0 && p.start_len[i] + p.start_len[i + 1] <= int(len), "parts of the request line lie within the text");
		bool fin = thin::thin_http_parser_is_finished(&p) != 0; sx_assert(thin::thin_http_parser_finish(&p) == (fin ? 1 : 0), "reports whether it finished"); sx_assert(done == fin && (p.body_start != 0) == fin, "finished when the head has ended"); if (fin) sx_assert(p.nread == p.body_start, "reads exactly the head"); else sx_assert(p.nread == len, "reads everything it is given");
	}
	QByteArray state() const { QByteArray r((const char *)&p.cs, sizeof p.cs); size_t v[] = { p.body_start, p.nread, p.mark, p.field_start, p.field_len, p.query_start }; r.append((const char *)v, sizeof v); r.append((const char *)p.start_len, sizeof p.start_len); return r; }
};
static QByteArray requestText(int k) {
	switch (k) {
	case 0: return "GET /a/b;c;d?e=f#g HTTP/1.1\r\nHost: h\r\nX:\r\n\r\nGET";
	case 1: return "OPTIONS * HTTP/1.0\r\nA-b:   c d\r\n\r\n";
	case 2: return "POST http://user@h:80/p%41%u42?x#y HTTP/12.34\r\n: x";
	case 3: return "ABCDEFGHIJKLMNOPQRST /?#a# HTTP/1.1\r\n\r\n";
	case 4: return "A$-_.9 //x/;?%2f HTTP/1.1\r\nK: v\r\r\n\r\n\r\n";
	case 5: return "GET / HTTP/1.1\r\nAccept: " + QByteArray(70, '/') + "\r\nB: c\r\n\r\nbody";
	case 6: return "get / HTTP/1.1\r\n\r\n";
	case 7: return "GET /# HTTP/1.1\nA: b\n\n";
	}
	return QByteArray();
}
extern "C" void parser_request() {
	QByteArray t = requestText(int(sx_param(0))); int n = int(sx_param(1)), pos; bool insert = sx_param(2) != 0; t = disturbed(t, n, insert, int(sx_param(3)), int(sx_param(4)), &pos); int end = pos + n + int(sx_param(5)); if (end > t.size()) end = t.size(); t = t.left(end); if (t.isEmpty()) return; TP a; a.feed(t);
	bool err = thin::thin_http_parser_has_error(&a.p) != 0; sx_cover(err ? "bad request" : a.done ? "head ended" : "head unfinished"); TP b; if (sx_param(6)) { for (int i = 1; i <= t.size(); ++i) b.feed(t.left(i)); } else { int lo = pos - 1, hi = pos + n + 1; if (lo < 1) lo = 1; if (hi > t.size()) hi = t.size(); int cut = int(sx_concrete(sx_int(lo, hi, "cut"))); b.feed(t.left(cut)); b.feed(t); }
	sx_assert(err == (thin::thin_http_parser_has_error(&b.p) != 0), "the same outcome in pieces as joined"); sx_out_int("error", err); if (!err) { sx_out("log", a.log.constData(), a.log.size()); sx_assert(same(a.log, b.log), "the same headers in pieces as joined"); sx_assert(same(a.state(), b.state()), "the same state in pieces as joined"); }
}
