// Server connection: segmentation (C01), fields (C02), refusals (C03), keep-alive and pipelining (C04), 100-continue (C08).
#include "reqoracle.h"
using namespace Pillow;
static const HttpHeaderCollection noHeaders;
static void answer(HttpConnection *s, int mode) {
	if (mode == 0) s->writeResponse(200, noHeaders, s->requestPath());
	else if (mode == 1) { HttpHeaderCollection h; h << HttpHeader("Transfer-Encoding", "chunked"); s->writeHeaders(200, h); s->writeContent("x1"); s->writeContent(s->requestContent()); s->endContent(); }
	else if (mode == 2) { s->writeHeaders(404); s->writeContent("tail"); s->endContent(); }
	else if (mode == 3) { (void)decodedSnapshot(s); s->setRequestParam("zz", "top"); HttpHeaderCollection h; h << HttpHeader("Content-Length", "0") << HttpHeader("X-A", "b"); s->writeHeaders(201, h); }
}
static QByteArray sized(const char *text, int lo, int hi, const char *name) { int n = int(sx_concrete(sx_int(lo, hi, name))); return symBytes(n, text); }
static QByteArray tmpl(int k) {
	switch (k) {
	case 0: return "GET /" + symBytes(2, "path") + " HTTP/1.1\r\nA: " + symBytes(1, "value") + "\r\n\r\nGET /z HTTP/1.1\r\n\r\n";
	case 1: return "POST /p HTTP/1.1\r\nContent-Length: 3\r\n\r\n" + symBytes(3, "body") + "GET /q?" + symBytes(1, "query") + " HTTP/1.0\r\n\r\n";
	case 2: return "PUT /?a=1#f HTTP/1.1\r\nExpect: 100-Continue\r\ncontent-length: 2\r\n\r\n" + symBytes(2, "body") + "GET / HTTP/1.1\r\nConnection: close\r\n\r\nGET /never HTTP/1.1\r\n\r\n";
	case 3: return "POST / HTTP/1.1\r\nContent-Length: " + symBytes(2, "length") + "\r\n\r\nabcdefghijkl";
	case 4: return symBytes(3, "start") + " / HTTP/1.1\r\n\r\nGET /b HTTP/1.1\r\n\r\n";
	case 5: return "GET / HTTP/1.1\r\nK" + symBytes(3, "head") + "v\r\n\r\nG";
	case 6: return "GET /x" + symBytes(3, "uri") + "HTTP/1.1\r\n\r\nGET /y HTTP/1.1\r\n\r\n";
	case 7: return "GET /v HTTP/" + symBytes(3, "version") + "\r\nConnection: keep-alive\r\n\r\nHEAD /w HTTP/1.1\r\n\r\n";
	case 8: return "POST /1 HTTP/1.1\r\nContent-Length: 4\r\nX: 1\r\n\r\nGET POST /2 HTTP/1.1\r\nX: 2\r\nContent-Length: 1\r\n\r\n" + symBytes(1, "b2") + "PUT /3 HTTP/1.1\r\n\r\n";
	case 9: return "GET / HTTP/1.1\r\nHost: h\r\n" + symBytes(4, "end") + "x";
	}
	return QByteArray();
}
// The same bytes in one read and in up to three reads are observed alike.
extern "C" void conn_cut() {
	int k = int(sx_param(0)), mode = int(sx_param(1)), cuts = int(sx_param(2)), lo = int(sx_param(3)), hi = int(sx_param(4)); QByteArray t = tmpl(k); int n = t.size(); if (hi == 0 || hi > n) hi = n; if (lo > n) return;
	Rec a; a.onReady = [&](HttpConnection *s) { answer(s, mode); }; a.dev.feed(t);
	int c1 = int(sx_concrete(sx_int(lo, hi, "cut1"))), c2 = cuts > 1 ? int(sx_concrete(sx_int(c1, n, "cut2"))) : n;
	Rec b; b.onReady = [&](HttpConnection *s) { answer(s, mode); };
	b.dev.feed(t.left(c1)); b.dev.feed(t.mid(c1, c2 - c1)); if (c2 < n) b.dev.feed(t.mid(c2));
	sx_out("log", a.log.constData(), a.log.size()); sx_out("out", a.dev.out.constData(), a.dev.out.size()); sx_out("log", b.log.constData(), b.log.size()); sx_out("out", b.dev.out.constData(), b.dev.out.size());
	if (a.ready > 1) sx_cover("two requests"); if (a.ready == 0) sx_cover("none delivered"); if (a.closed) sx_cover("closed");
	sx_assert(a.ready == b.ready && a.completed == b.completed && a.closed == b.closed, "same number of requests, completions and closes however the bytes are cut");
	sx_assert(same(a.log, b.log), "same requests in the same order however the bytes are cut");
	sx_assert(same(a.dev.out, b.dev.out), "same bytes written back however the bytes are cut");
}
// The answer comes later than the input of the next requests.
extern "C" void conn_cut_late() {
	int k = int(sx_param(0)), mode = int(sx_param(1)); QByteArray t = tmpl(k); int n = t.size();
	QByteArray logs[2], outs[2]; int cut = int(sx_concrete(sx_int(0, n, "cut")));
	for (int r = 0; r < 2; ++r) {
		Rec a; if (r == 0) a.dev.feed(t); else { a.dev.feed(t.left(cut)); a.dev.feed(t.mid(cut)); }
		for (int i = 0; i < 4 && a.c.state() == HttpConnection::SendingHeaders; ++i) answer(&a.c, mode);
		logs[r] = a.log; outs[r] = a.dev.out; if (a.ready > 1) sx_cover("two requests");
	}
	sx_assert(same(logs[0], logs[1]), "same requests in the same order with late answers"); sx_assert(same(outs[0], outs[1]), "same bytes written back with late answers");
}

static QByteArray base(int k) {
	switch (k) {
	case 0: return "GET /ab?c=d#e HTTP/1.1\r\nH: v\r\nI:w\r\n\r\n";
	case 1: return "PUT /%41;b//c HTTP/1.0\r\nConnection: keep-alive\r\nContent-Length: 3\r\n\r\nxyz";
	case 2: return "OPTIONS * HTTP/1.1\r\n\r\n";
	case 3: return "GET http://h:8/p?q HTTP/1.1\r\nA:  \r\n\r\n";
	case 4: return "POST / HTTP/1.1\r\nContent-Length: 5\r\nConnection: close\r\n\r\nhello";
	case 5: return "GET /? HTTP/1.1\r\n\r\n";
	case 6: return "GET /# HTTP/1.1\r\nX:\r\nY: \r\nZ:  z \r\n\r\n";
	case 7: return "GET /?# HTTP/1.1\r\n\r\n";
	case 8: return "GET //a;b;?x?y=%u41#/;? HTTP/1.1\r\n\r\n";
	case 9: return "ABCDEFGHIJKLMNOPQR / HTTP/1.1\r\n\r\n";
	case 10: return "GET /a HTTP/1.1\r\nContent-Length: \r\n\r\n";
	case 11: return "GET / HTTP/1.1\r\nK: \r\r\n\r\n";
	}
	return QByteArray();
}
static bool terminated(const QByteArray &b) { return b.constData()[sx_concrete(b.size())] == 0; }
static const QByteArray tail = "GET /tail?t=1 HTTP/1.1\r\nT: u\r\n\r\n";
// Checks a whole connection's life on `stream` against the oracle's reading; each request is answered with its path.
// late: more input arrives while the first request is being handled, and the application reads parameters and decoded fields.
static void streamCheck(const QByteArray &first, bool late) {
	QByteArray stream = late ? first + tail : first; bool fed = !late;
	Rec a; int i = 0; bool alive = true; QByteArray want; int requests = 0; QVector<Req> reqs; Req last;
	for (;;) { last = readRequest(stream, i); sx_assume(!last.gray); if (last.st != Req::Good) break; reqs.append(last); i += last.used; if (!last.keepsAlive()) { alive = false; break; } }
	bool bad = alive && (last.st == Req::Bad400 || last.st == Req::Bad413); const char *sx = "fields delivered are exactly the bytes received";
	a.onReady = [&](HttpConnection *s) {
		sx_assert(requests < reqs.size(), "nothing but complete well-formed requests is delivered"); const Req &r = reqs.at(requests++);
		sx_assert(same(s->requestMethod(), r.method), "method is the bytes received"); sx_assert(same(s->requestUri(), r.uri), "URI is the bytes received"); sx_assert(same(s->requestPath(), r.path), "path is the bytes received");
		sx_assert(same(s->requestQueryString(), r.query), "query string is the bytes received"); sx_assert(same(s->requestFragment(), r.fragment), "fragment is the bytes received"); sx_assert(same(s->requestHttpVersion(), r.version), "version is the bytes received");
		QByteArray w = r.snapshot(); sx_assert(same(snapshot(s), w), sx);
		sx_assert(terminated(s->requestMethod()) && terminated(s->requestUri()) && terminated(s->requestPath()) && terminated(s->requestQueryString()) && terminated(s->requestFragment()) && terminated(s->requestHttpVersion()), "request line fields end in NUL");
		for (int h = 0; h < s->requestHeaders().size(); ++h) sx_assert(terminated(s->requestHeaders().at(h).first) && terminated(s->requestHeaders().at(h).second), "header names and values end in NUL");
		if (!fed) { fed = true; a.dev.feed(tail); sx_assert(same(snapshot(s), w), "fields do not change when more input arrives"); }
		if (late) { (void)decodedSnapshot(s); s->setRequestParam("c", "x"); sx_assert(same(snapshot(s), w), "fields do not change when parameters and decoded fields are read"); }
		HttpHeaderCollection h; h << HttpHeader("Content-Length", num(sx_concrete(r.path.size() + 1))); s->writeHeaders(200, h); if (r.method == "HEAD") return;
		sx_assert(same(snapshot(s), w), "fields do not change while the response is written"); s->writeContent(r.path); sx_assert(same(snapshot(s), w), "fields do not change while the response is written"); s->writeContent("!");
	};
	a.dev.feed(first); if (!fed) { fed = true; a.dev.feed(tail); }
	sx_out("log", a.log.constData(), a.log.size()); sx_out("out", a.dev.out.constData(), a.dev.out.size());
	sx_assert(a.ready == reqs.size(), "every well-formed request within the limits is delivered");
	if (reqs.size() > 1) sx_cover("delivered twice"); if (bad) sx_cover(last.st == Req::Bad413 ? "413" : "400"); if (alive && last.st == Req::Incomplete) sx_cover("waiting"); if (!alive) sx_cover("client closes");
	int from = 0;
	for (int k = 0; k < reqs.size(); ++k) { Msg m = readResponse(a.dev.out, from, reqs.at(k).method == "HEAD"); sx_assert(m.ok && m.complete && m.status() == 200, "each request is answered in order"); sx_assert(reqs.at(k).method == "HEAD" || same(m.body, reqs.at(k).path + "!"), "each answer belongs to its request"); from = m.used; }
	if (bad) {
		int code = last.st == Req::Bad413 ? 413 : 400; Msg m = readResponse(a.dev.out, from, false);
		sx_assert(m.ok && m.status() == code, code == 400 ? "a bad request gets a 400 reply" : "an unacceptable body length gets a 413 reply"); sx_assert(ciEqual(m.value("connection"), "close") && m.body.isEmpty(), "the refusal announces that the connection closes");
		sx_assert(m.used == a.dev.out.size(), "exactly one refusal is written"); sx_assert(a.closed == 1 && a.c.state() == HttpConnection::Closed && !a.dev.isOpen(), "the connection is closed after a refusal");
		int r0 = a.ready; QByteArray o = a.dev.out; a.dev.in.append(tail); emit a.dev.readyRead(); sx_assert(a.ready == r0 && a.closed == 1 && same(a.dev.out, o), "nothing after a refused request is delivered or answered");
	} else {
		sx_assert(from == a.dev.out.size(), "nothing else is written"); sx_assert(a.closed == (alive ? 0 : 1), "the connection is closed exactly when asked");
	}
}
// param: base request, first position, last position, bytes there (symbolic), bytes replaced, more input while handling, preceded by another request
extern "C" void conn_parse() {
	QByteArray b = base(int(sx_param(0))); int lo = int(sx_param(1)), hi = int(sx_param(2)), n = int(sx_param(3)), del = int(sx_param(4)); if (hi <= 0 || hi > b.size()) hi = b.size();
	int at = int(sx_concrete(sx_int(lo, hi, "at"))); QByteArray w = symBytes(n, "window"); QByteArray t = b.left(at); t += w; if (at + del < b.size()) t += b.mid(at + del);
	if (sx_param(6)) t = "POST /first?x=1#y HTTP/1.1\r\nContent-Length: 2\r\nP: q\r\nR: s\r\n\r\nhi" + t;
	streamCheck(t + tail, sx_param(5) != 0);
}

// The limit on the size of the head, to the byte. param: kind of head, pieces it arrives in
extern "C" void conn_limit() {
	int kind = int(sx_param(0)), pieces = int(sx_param(1)); int size = int(sx_concrete(sx_int(32764, 32772, "size"))); QByteArray t;
	if (kind == 0) { t = "GET / HTTP/1.1\r\nA: "; t += QByteArray(size - t.size() - 4, 'v'); t += "\r\n\r\n"; }
	else if (kind == 1) { t = "GET / HTTP/1.1\r\nA: "; t += QByteArray(size - t.size(), 'v'); } // never finished
	else if (kind == 2) { t = "POST /"; t += QByteArray(size - 200, 'p'); t += " HTTP/1.1\r\nContent-Length: 3\r\nB: "; t += QByteArray(size - t.size() - 4, 'w'); t += "\r\n\r\nxyz"; }
	else if (kind == 3) { t = "GET / HTTP/1.1\r\n"; while (t.size() < size - 40) t += "Header: value\r\n"; t += "B: "; t += QByteArray(size - t.size() - 4, 'w'); t += "\r\n\r\n"; }
	if (sx_param(2)) t = "GET /a HTTP/1.1\r\nX: y\r\n\r\n" + t;
	QByteArray whole = t; if (kind != 1) whole += tail;
	Rec a; QVector<QByteArray> want; int i = 0; Req r; for (;;) { r = readRequest(whole, i); if (r.st != Req::Good) break; want.append(r.snapshot()); i += r.used; }
	a.onReady = [&](HttpConnection *s) { s->writeResponse(200, noHeaders, "ok"); };
	int n = whole.size(), step = n / pieces + 1; for (int f = 0; f < n; f += step) a.dev.feed(whole.mid(f, step));
	sx_assert(a.ready == want.size(), "requests within the head limit are delivered, larger ones are not"); for (int k = 0; k < want.size(); ++k) sx_assert(same(a.shots.at(k), want.at(k)), "fields of a large head are exact");
	int from = 0; for (int k = 0; k < want.size(); ++k) { Msg m = readResponse(a.dev.out, from, false); sx_assert(m.ok && m.status() == 200, "answered"); from = m.used; }
	if (r.st == Req::Bad400) { sx_cover("head too large"); Msg m = readResponse(a.dev.out, from, false); sx_assert(m.ok && m.status() == 400 && m.used == a.dev.out.size() && a.closed == 1, "a head larger than the limit is refused once with 400 and closed"); }
	else { sx_cover("head fits"); sx_assert(from == a.dev.out.size() && a.closed == 0, "nothing else written"); }
}
// The buffer grows and moves while requests of very different sizes follow each other. params: body size of the first and of the third, symbolic bytes in the second
extern "C" void conn_grow() {
	int n1 = int(sx_param(0)), n3 = int(sx_param(1)), k = int(sx_param(2)); QByteArray one = "POST /1 HTTP/1.1\r\nContent-Length: " + num(n1) + "\r\n\r\n" + QByteArray(n1, 'x');
	QByteArray two = "POST /" + symText(1, "path", "%#?\"") + "?a=" + symText(1, "query", "%#") + " HTTP/1.1\r\nContent-Length: 10\r\nX-One: " + symText(1, "value") + "irst\r\n\r\n12345" + symBytes(k, "body") + QByteArray(5 - k, '9'), three = "PUT /3 HTTP/1.1\r\nContent-Length: " + num(n3) + "\r\nY: z\r\n\r\n" + QByteArray(n3, 'z');
	QByteArray all = one + two + three + tail; Rec a; a.onReady = [&](HttpConnection *s) { s->writeResponse(200, noHeaders, s->requestPath()); };
	int cut = one.size() + int(sx_concrete(sx_int(0, two.size(), "cut"))); bool early = sx_param(3) != 0; if (early) { int e = int(sx_concrete(sx_int(0, 3, "early"))) * (n1 / 4) + 1; a.dev.feed(all.left(e)); a.dev.feed(all.mid(e, cut - e)); } else { a.dev.feed(one); a.dev.feed(all.mid(one.size(), cut - one.size())); }
	a.dev.feed(all.mid(cut));
	QVector<QByteArray> want; int i = 0; for (;;) { Req r = readRequest(all, i); if (r.st != Req::Good) break; want.append(r.snapshot()); i += r.used; } sx_assert(want.size() >= 4, "four requests"); sx_assert(a.ready == want.size(), "every request is delivered"); sx_cover("four");
	for (int j = 0; j < want.size(); ++j) sx_assert(same(a.shots.at(j), want.at(j)), "fields are exact however the buffer grows");
}
// Declared body lengths around the limits, and any two or three byte length text. param: kind
extern "C" void conn_length() {
	int kind = int(sx_param(0)); QByteArray v; bool expect = sx_param(1) != 0;
	if (kind == 0) v = symBytes(int(sx_param(2)), "length");
	else if (kind == 1) v = "1342177" + symBytes(2, "digits"); else if (kind == 2) v = "21474836" + symBytes(2, "digits"); else if (kind == 3) v = "42949672" + symBytes(2, "digits"); else if (kind == 4) v = "-" + symBytes(3, "digits"); else if (kind == 5) v = "1844674407370955161" + symBytes(1, "digits"); else if (kind == 6) v = "000000000000000000" + symBytes(2, "digits");
	QByteArray head = "POST /x HTTP/1.1\r\nContent-Length: " + v + "\r\n"; if (expect) head += "Expect: 100-continue\r\n"; head += "\r\n";
	Req r = readRequest(head, 0); sx_assume(r.head > 0 || r.st != Req::Incomplete); sx_assume(!r.gray); for (int i = 0; i < v.size(); ++i) sx_assume(v.at(i) != '\r'); // the value itself does not end the line
	Rec a; a.onReady = [&](HttpConnection *s) { s->writeResponse(200, noHeaders, num(sx_concrete(s->requestContent().size()))); }; a.dev.feed(head); sx_out("out", a.dev.out.constData(), a.dev.out.size()); sx_out_int("closed", a.closed);
	QByteArray out = a.dev.out; int from = 0;
	if (r.st == Req::Bad400 || r.st == Req::Bad413) {
		Msg m = readResponse(out, 0, false); sx_cover(r.st == Req::Bad413 ? "413" : "400"); sx_assert(m.ok && m.status() == (r.st == Req::Bad413 ? 413 : 400), r.st == Req::Bad413 ? "unparsable or too large body length gets 413, with nothing before it" : "negative body length gets 400"); sx_assert(ciEqual(m.value("connection"), "close") && m.used == out.size() && a.closed == 1 && a.ready == 0, "refused once, closed, never delivered");
	} else {
		bool body = r.st == Req::Incomplete; if (body) sx_cover("waits for body"); const char *cont = "HTTP/1.1 100 Continue\r\n\r\n"; if (body && expect) { sx_assert(starts(out, cont), "an accepted expecting request gets 100"); from = int(strlen(cont)); }
		sx_assert(a.closed == 0 && a.ready == (body ? 0 : 1), "a length within the limits is accepted"); if (body) sx_assert(out.size() == from, "nothing more is written before the body");
		else { Msg m = readResponse(out, 0, false); sx_assert(m.ok && m.status() == 200 && m.used == out.size(), "answered"); }
	}
}
static QByteArray many(const char *piece, int n) { QByteArray r; for (int i = 0; i < n; ++i) { for (const char *p = piece; *p; ++p) if (*p == '#') r += num(i); else r.append(*p); } return r; }
static QByteArray first(int k) {
	switch (k) {
	case 0: return "GET /one?p=1&q=2#frag HTTP/1.1\r\nHost: h\r\nX: y\r\n\r\n";
	case 1: return "POST /two HTTP/1.1\r\nContent-Length: 5\r\nContent-Type: t\r\n\r\nhello";
	case 2: return "GET /many HTTP/1.1\r\n" + many("K#: v#\r\n", 40) + "\r\n";
	case 3: return "POST /big?z HTTP/1.1\r\nExpect: 100-continue\r\nContent-Length: 40000\r\n\r\n" + QByteArray(40000, 'B');
	case 4: return "HEAD /head?h=1 HTTP/1.1\r\n\r\n";
	case 5: return "PUT /old#f HTTP/1.0\r\nConnection: keep-alive\r\nContent-Length: 1\r\n\r\n!";
	case 6: return "GET /q?" + many("k#=v&", 20) + " HTTP/1.1\r\n\r\n";
	case 7: return "GET /wide HTTP/1.1\r\nW: " + QByteArray(20000, 'w') + "\r\n\r\n";
	case 8: return "GET /e%41 HTTP/1.1\r\nConnection: x\r\n\r\n";
	}
	return QByteArray();
}
static QByteArray second(int k) {
	switch (k) {
	case 0: return "GET /" + symText(1, "path", "%#?\"") + "?" + symText(2, "query", "%#") + " HTTP/1.1\r\nA: " + symText(1, "value") + "\r\n\r\n";
	case 1: return "POST /b HTTP/1.1\r\nContent-Length: 2\r\n\r\n" + symBytes(2, "body");
	case 2: return "GET / HTTP/1.1\r\n\r\n";
	case 3: return "PUT /c HTTP/1.0\r\nconnection: " + symText(1, "conn") + "eep-alive\r\nexpect: 100-continue\r\ncontent-length: 1\r\n\r\n" + symBytes(1, "body");
	case 4: return "G" + symBytes(2, "method") + " / HTTP/1.1\r\n\r\n";
	case 5: return "HEAD /x HTTP/1." + symText(1, "version") + "\r\n\r\n";
	case 6: return "GET * HTTP/1.1\r\nB: 1\r\n\r\n";
	case 7: return "POST /l HTTP/1.1\r\nContent-Length: " + symText(1, "length") + "\r\n\r\n0123456789";
	}
	return QByteArray();
}
static void reply(HttpConnection *s, int style) {
	HttpHeaderCollection h;
	switch (style) {
	case 0: s->writeResponse(200, noHeaders, s->requestPath()); break;
	case 1: h << HttpHeader("Transfer-Encoding", "chunked"); s->writeHeaders(200, h); s->writeContent("first"); s->writeContent("second"); s->endContent(); break;
	case 2: h << HttpHeader("Content-Length", "7") << HttpHeader("Content-Type", "a/b"); s->writeHeaders(203, h); s->writeContent("12"); s->writeContent("34567"); break;
	case 3: (void)decodedSnapshot(s); s->setRequestParam("zz", "top"); s->setRequestParam("p", "9"); s->writeResponse(404); break;
	case 4: h << HttpHeader("X-Big", QByteArray(5000, 'x')); s->writeResponse(200, h, QByteArray(3, 'r')); break;
	case 5: s->writeResponse(304); break;
	case 6: s->writeHeaders(200); s->writeContent("until close"); s->endContent(); break; // the length is not known
	case 7: h << HttpHeader("Connection", "close"); s->writeResponse(200, h, "bye"); break;
	case 8: (void)decodedSnapshot(s); s->setRequestParam("zz", "top"); break; // not answered
	case 9: (void)decodedSnapshot(s); s->setRequestParam("p", "top"); h << HttpHeader("Transfer-Encoding", "chunked") << HttpHeader("Connection", "close"); s->writeHeaders(500, h); s->writeContent("partial"); break; // not finished
	case 10: (void)decodedSnapshot(s); h << HttpHeader("Content-Length", "70000"); s->writeHeaders(200, h); s->writeContent("partial"); s->close(); break;
	}
}
// A request on a used connection is handled as on a fresh one. param: first request, its answer, second request, its answer, how they meet
extern "C" void conn_after() {
	int k1 = int(sx_param(0)), s1 = int(sx_param(1)), k2 = int(sx_param(2)), s2 = int(sx_param(3)), mode = int(sx_param(4)); QByteArray r1 = first(k1), r2 = second(k2);
	QByteArray seen[2], outs[2]; int counts[2][3];
	for (int run = 0; run < 2; ++run) {
		Rec a; QByteArray got; int readies = 0, base = 0, c0[3] = { 0, 0, 0 }; int limit = run ? 2 : 1; MemDevice second;
		auto shot = [&](HttpConnection *s) { got = snapshot(s); got += decodedSnapshot(s); got += latin(s->requestParamValue("p")); got += '|'; got += latin(s->requestParamValue("zz")); };
		auto ready = [&](HttpConnection *s) { ++readies; sx_assert(a.completed + 1 == a.ready || mode >= 3, "a request is delivered only after the previous response is complete"); if (readies == limit) { shot(s); } if (mode != 2) reply(s, readies == limit ? s2 : s1); };
		a.onReady = ready;
		if (run == 0) { a.dev.feed(r2); if (mode == 2 && a.c.state() == HttpConnection::SendingHeaders) reply(&a.c, s2); outs[0] = a.dev.out; counts[0][0] = a.ready; counts[0][1] = a.completed; counts[0][2] = a.closed; }
		else {
			if (mode == 0) { a.dev.feed(r1); base = a.dev.out.size(); a.dev.feed(r2); }
			else if (mode == 1) { a.onCompleted = [&](HttpConnection *) { if (a.completed == 1) base = a.dev.out.size(); }; a.dev.feed(r1 + r2); }
			else if (mode == 2) { a.onCompleted = [&](HttpConnection *) { if (a.completed == 1) base = a.dev.out.size(); }; a.dev.feed(r1 + r2); sx_assert(a.ready == 1, "the second request waits for the first answer"); reply(&a.c, s1); if (a.c.state() == HttpConnection::SendingHeaders) reply(&a.c, s2); }
			else { // the object goes to another client: after the first request, or after any part of it
				int cut = r1.size(); if (mode == 4) { int step = r1.size() > 200 ? 1 + r1.size() / 40 : 1; cut = int(sx_concrete(sx_int(0, (r1.size() - 1) / step, "cut"))) * step; limit = 1; }
				a.dev.feed(r1.left(cut)); if (a.c.state() != HttpConnection::Closed) a.dev.close(); sx_assert(a.closed == 1, "closed once"); second.in = QByteArray(); c0[0] = a.ready; c0[1] = a.completed; c0[2] = a.closed; a.c.initialize(&second, &second); second.feed(r2); base = 0; }
			outs[1] = mode >= 3 ? second.out : a.dev.out.mid(base); if (mode < 3 && a.completed && c0[0] == 0) { c0[0] = 1; c0[1] = 1; } counts[1][0] = a.ready - c0[0]; counts[1][1] = a.completed - c0[1]; counts[1][2] = a.closed - c0[2];
		}
		seen[run] = got;
	}
	sx_out("seen", seen[0].constData(), seen[0].size()); sx_out("seen", seen[1].constData(), seen[1].size()); sx_out("out", outs[0].constData(), outs[0].size()); sx_out("out", outs[1].constData(), outs[1].size());
	if (counts[0][0]) sx_cover("second delivered"); else sx_cover("second not delivered"); if (counts[0][2]) sx_cover("closed after second");
	sx_assert(counts[0][0] == counts[1][0] && counts[0][1] == counts[1][1] && counts[0][2] == counts[1][2], "delivered, completed and closed as on a fresh connection");
	sx_assert(same(seen[0], seen[1]), "the request looks as on a fresh connection"); sx_assert(same(outs[0], outs[1]), "the response is as on a fresh connection");
}
static int countOf(const QByteArray &b, const char *n) { int c = 0, k = int(strlen(n)); for (int i = 0; i + k <= b.size(); ++i) if (sx_eq(b.constData() + i, n, k)) ++c; return c; }
// 100-continue. params: which text varies, window, length given, how the body arrives, version
extern "C" void conn_expect() {
	int kind = int(sx_param(0)), w = int(sx_param(1)), lk = int(sx_param(2)), arrive = int(sx_param(3)), ver = int(sx_param(4)); const char *cont = "HTTP/1.1 100 Continue\r\n\r\n";
	QByteArray name = "Expect", value = "100-continue"; QByteArray sym = symText(w, "window", kind == 1 ? ":" : "");
	if (kind == 0) { int at = int(sx_concrete(sx_int(0, value.size() - w, "at"))); for (int i = 0; i < w; ++i) value[at + i] = sym.at(i); }
	else if (kind == 1) { int at = int(sx_concrete(sx_int(0, name.size() - w, "at"))); for (int i = 0; i < w; ++i) name[at + i] = sym.at(i); }
	else if (kind == 2) value = sym; else if (kind == 3) value += sym; else if (kind == 4) value = sym + value;
	static const char *const lengths[] = { "", "Content-Length: 0\r\n", "Content-Length: 3\r\n", "Content-Length: -1\r\n", "Content-Length: 134217729\r\n", "Content-Length: x\r\n", "Content-Length: 1\r\n" }; static const char *const versions[] = { "HTTP/1.1", "HTTP/1.0" };
	QByteArray head = QByteArray("PUT /e ") + versions[ver] + "\r\nA: b\r\n" + name + ": " + value + "\r\n" + lengths[lk] + "\r\n", body = lk == 2 ? "xyz" : lk == 6 ? "q" : "";
	Req r = readRequest(head + body, 0); bool wants = ciEqual(r.value("expect"), "100-continue"), accepted = r.st == Req::Good && body.size() > 0; bool want = wants && accepted; if (want) sx_cover("continue"); else sx_cover("no continue");
	Rec a; int at = -1; a.onReady = [&](HttpConnection *s) { if (at < 0) at = a.dev.out.size(); s->writeResponse(200, noHeaders, "end"); };
	QByteArray all = head + body;
	if (arrive == 0) a.dev.feed(all); else if (arrive == 1) { a.dev.feed(head); if (accepted) sx_assert(same(a.dev.out, want ? cont : ""), "the interim response is there before the body arrives"); a.dev.feed(body); } else if (arrive == 2) { a.dev.feed(head); for (int i = 0; i < body.size(); ++i) { a.dev.feed(body.mid(i, 1)); } } else if (arrive == 3) a.dev.feed(QByteArray("GET /before HTTP/1.1\r\n\r\n") + all); else if (arrive == 4) { int c = int(sx_concrete(sx_int(1, all.size() - 1, "cut"))); a.dev.feed(all.left(c)); a.dev.feed(all.mid(c)); }
	else if (arrive == 5) { a.dev.feed(all + "GET /after HTTP/1.1\r\n\r\n"); }
	QByteArray out = a.dev.out; int from = 0; if (arrive == 3) { Msg m = readResponse(out, 0, false); sx_assert(m.ok && m.status() == 200, "first answered"); from = m.used; }
	sx_out("out", out.constData(), out.size()); sx_assert(countOf(out, cont) == (want ? 1 : 0), want ? "exactly one interim response is written" : "no interim response is written");
	if (want) { sx_assert(sx_eq(out.constData() + from, cont, int(strlen(cont))), "the interim response comes before the final one"); if (arrive != 3) sx_assert(at == int(strlen(cont)), "and before the request is delivered"); from += int(strlen(cont)); }
	Msg m = readResponse(out, from, false); sx_assert(m.ok, "a final response"); if (r.st == Req::Good) sx_assert(m.status() == 200 && same(m.body, "end"), "the request is answered"); else sx_assert(m.status() >= 400 && a.closed == 1, "the request is refused");
}
