// C30: the replies of the access manager, over the socket shim: what a reply shows of a response, how it ends, and how its clients are used again.
#include "common.h"
#include "HttpClient.h"
#include "replies.h"
#include <QtNetwork/QNetworkCookieJar>
#include <QtNetwork/QNetworkReply>
#include <QtNetwork/QNetworkRequest>
using namespace Pillow;
extern "C" { struct z_stream_s; int inflateInit2_(z_stream_s *, int, const char *, int) { sx_unmodelled("decoding"); return 0; } int inflateEnd(z_stream_s *) { return 0; } int inflateReset(z_stream_s *) { return 0; } int inflate(z_stream_s *, int) { sx_unmodelled("decoding"); return -3; } }
namespace {
// A jar that keeps nothing: cookies are no part of this property.
struct NoJar : public QNetworkCookieJar { QList<QNetworkCookie> cookiesForUrl(const QUrl &) const { return QList<QNetworkCookie>(); } bool setCookiesFromUrl(const QList<QNetworkCookie> &, const QUrl &) { return true; } };
bool letters(const QByteArray &b) { for (int i = 0; i < b.size(); ++i) { char c = lower(b.at(i)); if (!((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'))) return false; } return true; }
int errorOf(int how) { switch (how) { case 0: return QNetworkReply::NoError; case 1: return QNetworkReply::RemoteHostClosedError; case 2: return QNetworkReply::UnknownNetworkError; case 3: return QNetworkReply::OperationCanceledError; default: return QNetworkReply::ProtocolUnknownError; } }
// A reply with everything that happens recorded, and its content taken according to a way of reading.
struct Watch {
	QNetworkReply *r; int fin, meta, errs, ready, way, lastError; QByteArray body; std::function<void()> onMeta, onReady, onFinished, onError; bool sizes;
	Watch(QNetworkReply *q, int w) : r(q), fin(0), meta(0), errs(0), ready(0), way(w), lastError(0), sizes(true) {
		QObject::connect(r, &QNetworkReply::metaDataChanged, [this] { sx_assert(fin == 0, "nothing after the end"); ++meta; if (onMeta) onMeta(); if (way == 4) take(1); });
		QObject::connect(r, &QNetworkReply::readyRead, [this] { sx_assert(fin == 0, "nothing after the end"); ++ready; if (way == 1) all(); else if (way == 2) some(); else if (way == 3) lines(); else if (way == 5) take(1); if (onReady) onReady(); });
		QObject::connect(r, static_cast<void (QNetworkReply::*)(QNetworkReply::NetworkError)>(&QNetworkReply::error), [this](QNetworkReply::NetworkError e) { sx_assert(fin == 0, "nothing after the end"); ++errs; lastError = int(e); if (onError) onError(); });
		QObject::connect(r, &QNetworkReply::finished, [this] { ++fin; if (onFinished) onFinished(); });
	}
	void all() { qint64 n = r->bytesAvailable(); QByteArray b = r->readAll(); sx_assert(b.size() == n, "as much can be read as is said to be available"); body.append(b); }
	void take(int n) { if (!r->isOpen()) return; qint64 had = r->bytesAvailable(); QByteArray b = r->read(n); sx_assert(b.size() == (had < n ? had : n), "a read gives what was asked for or all there is"); body.append(b); }
	void some() { take(int(sx_concrete(sx_int(1, 3, "read")))); }
	void lines() { char buf[8]; if (!r->isOpen()) return; qint64 n = r->readLine(buf, 8); if (n > 0) body.append(buf, int(n)); }
	void rest() { if (!r->isOpen()) return; if (way == 1) all(); else if (way == 2) { while (r->bytesAvailable() > 0) some(); } else if (way == 3) { while (r->bytesAvailable() > 0) lines(); } else { while (r->bytesAvailable() > 0) take(4); } sx_assert(r->readAll().isEmpty() && r->bytesAvailable() == 0, "nothing more is left"); }
};
void settleAll(SxTcpSocket *s) { if (s->state() == QAbstractSocket::ConnectingState) s->sxConnected(); sx_process_events(); if (s->state() == QAbstractSocket::ConnectingState) s->sxConnected(); }
void feedTo(SxTcpSocket *s, const QByteArray &b) {
	int p = 0, idle = 0; while (p < b.size()) { if (s->state() != QAbstractSocket::ConnectedState) return; int n = b.size() - p; qint64 cap = s->readBufferSize(); if (cap > 0) { int room = int(cap - s->in.size()); if (n > room) n = room; } if (n > 0) { idle = 0; s->sxFeed(b.constData() + p, n); p += n; } else if (++idle > 3) return; if (cap > 0) sx_process_events(); }
}
// the value a reply must show for a header: all values received for that name, joined
QByteArray joined(const HttpHeaderCollection &h, const QByteArray &name, int upTo) { QByteArray v; bool first = true; for (int i = 0; i < upTo; ++i) if (ciEqual(h.at(i).first, name.constData())) { if (!first) v += ciEqual(name, "set-cookie") ? "\n" : ", "; v += h.at(i).second; first = false; } return v; }
void checkHead(QNetworkReply *r, const Reply &e) {
	sx_assert(r->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt() == e.status, "the status is the one received"); int distinct = 0;
	for (int i = 0; i < e.h.size(); ++i) { bool before = false; for (int j = 0; j < i; ++j) if (ciEqual(e.h.at(j).first, e.h.at(i).first.constData())) before = true; if (before) continue; ++distinct; sx_assert(r->hasRawHeader(e.h.at(i).first), "every header received is there"); sx_assert(same(r->rawHeader(e.h.at(i).first), joined(e.h, e.h.at(i).first, e.h.size())), "with exactly the values received"); }
	if (!e.trailers) sx_assert(r->rawHeaderPairs().size() == distinct, "and no other");
	QVariant t = r->attribute(QNetworkRequest::RedirectionTargetAttribute); bool redirect = e.status == 300 || e.status == 301 || e.status == 302 || e.status == 303 || e.status == 307; QByteArray where; for (int i = e.h.size() - 1; i >= 0; --i) if (ciEqual(e.h.at(i).first, "location")) where = e.h.at(i).second;
	if (redirect && !where.isEmpty()) { sx_cover("redirection"); sx_assert(t.isValid(), "a redirection shows its target"); sx_assert(same(t.toUrl().toEncoded(), where), "the redirection target is the one received"); } else sx_assert(!t.isValid(), "only a redirection has a target");
}
QNetworkRequest requestFor(const char *url) { return QNetworkRequest(QUrl(QString::fromLatin1(url))); }
Reply more(int k) { // responses beyond those of replies.h
	if (k < REPLIES) { Reply r = reply(k); if (k == 1) { QByteArray n = r.h.at(0).first, m = r.h.at(2).first; sx_assume(!same(n, "TE") && !same(n, "te")); (void)m; } if (k == 14) sx_assume(letters(r.h.at(2).second.mid(2))); if (k == 20) { char c = r.h.at(0).second.at(1); sx_assume((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '~' || c == '?' || c == '#'); } return r; }
	Reply r; QByteArray start = "HTTP/1.1 200 OK\r\n"; static const int codes[] = { 300, 301, 302, 303, 307 };
	switch (k - REPLIES) {
	case 0: { int i = int(sx_concrete(sx_int(0, 4, "code"))); r.status = codes[i]; start = "HTTP/1.1 " + num(codes[i]) + " R\r\n"; QByteArray p = symBytes(2, "loc"); for (int j = 0; j < 2; ++j) sx_assume(p.at(j) >= (j ? '0' : 'a') && p.at(j) <= (j ? '9' : 'z')); r.h << HttpHeader("X", "1") << HttpHeader("lOcation", "http://" + p + ".example:81/a%20b?x=1#f") << HttpHeader("Content-Length", "1"); r.body = "x"; break; }
	case 1: { QByteArray d = digits(3, "st", '2'); sx_assume(d.at(0) <= '5'); sx_assume(!same(d, "204") && !same(d, "304")); r.status = (d.at(0) - '0') * 100 + (d.at(1) - '0') * 10 + (d.at(2) - '0'); start = "HTTP/1.1 " + d + " R\r\n"; r.h << HttpHeader("Location", "/elsewhere") << HttpHeader("Content-Length", "0"); break; }
	case 2: { QByteArray v = text(1, "v1"), w = text(2, "v2"); r.h << HttpHeader("Vary", v) << HttpHeader("Via", "a") << HttpHeader("vary", w) << HttpHeader("Content-Length", "1") << HttpHeader("VARY", "z"); r.body = "y"; break; }
	case 3: { QByteArray c = symBytes(2, "ck"); sx_assume(letters(c)); r.h << HttpHeader("Set-Cookie", "a=" + c.left(1)) << HttpHeader("X", "y") << HttpHeader("set-cookie", "b=" + c.mid(1)) << HttpHeader("Set-Cookie", "c=1") << HttpHeader("Content-Length", "0"); break; }
	case 4: { r.h << HttpHeader("Content-Length", "12"); QByteArray b = symBytes(12, "body"); r.body = b; break; }
	case 5: { QByteArray b = symBytes(6, "body"); r.h << HttpHeader("Transfer-Encoding", "chunked"); r.body = b; break; }
	case 6: { r.h << HttpHeader("Content-Encoding", "x-" + text(1, "enc")) << HttpHeader("Content-Length", "3"); r.body = symBytes(3, "body"); break; }
	}
	QByteArray hd = start; for (int i = 0; i < r.h.size(); ++i) hd += line(r.h.at(i)); hd += "\r\n"; r.headEnd = hd.size(); QByteArray b = r.body; if (k - REPLIES == 5) { b = QByteArray(); for (int i = 0; i < 6; i += 2) b += "2\r\n" + r.body.mid(i, 2) + "\r\n"; b += "0\r\n\r\n"; } r.bytes = hd + b; return r;
}
QNetworkReply *ask(Pillow::NetworkAccessManager &nam, const QNetworkRequest &q, int op, QBuffer *data) {
	switch (op) { case 1: return nam.head(q); case 2: data->open(QIODevice::ReadOnly); return nam.post(q, data); case 3: data->open(QIODevice::ReadOnly); return nam.put(q, data); case 4: return nam.deleteResource(q); case 5: data->open(QIODevice::ReadOnly); return nam.sendCustomRequest(q, "PATCH", data); default: return nam.get(q); }
}
}
// One reply. param: response, cuts, way of reading, operation, how it ends (0 whole, 1 remote close, 2 network error, 3 abort)
extern "C" void nam_reply() {
	int k = int(sx_param(0)), cuts = int(sx_param(1)), way = int(sx_param(2)), op = int(sx_param(3)), end = int(sx_param(4)); Reply e = more(k); if (e.head) op = 1; QByteArray payload = "payload"; QBuffer data(&payload);
	Pillow::NetworkAccessManager nam; nam.setCookieJar(new NoJar); QNetworkRequest q = requestFor("http://h/p"); Watch w(ask(nam, q, op, &data), way); SxTcpSocket *s = SxTcpSocket::last; sx_assert(w.r->url() == q.url() && w.r->manager() == &nam && !w.r->isFinished() && w.r->isRunning(), "a new reply runs"); settleAll(s);
	w.onMeta = [&] { sx_assert(w.meta == 1, "the head is announced once"); checkHead(w.r, e); };
	w.onReady = [&] { sx_assert(w.meta == 1, "the head comes before content"); const QByteArray &b = w.body; sx_assert(b.size() <= e.body.size() && sx_eq(b.constData(), e.body.constData(), b.size()), "the content is what was received, in order"); };
	bool failed = false; w.onError = [&] { sx_assert(failed, "an error is reported only if the request failed"); sx_assert(w.r->error() != QNetworkReply::NoError, "the error is that of the reply"); };
	w.onFinished = [&] { sx_assert(w.fin == 1, "a reply finishes once"); sx_assert(w.r->isFinished(), "and is finished then"); };
	int to = e.bytes.size(); if (end) { to = int(sx_concrete(sx_int(0, e.bytes.size() - (e.untilClose && end == 1 ? 0 : 1), "stop"))); if (e.untilClose && end == 1 && to >= e.headEnd) sx_assume(false); if ((k == 7 || k == 8 || k == 22 || k == 21) && to >= e.headEnd) sx_assume(false); }
	if (end) failed = true; int at = 0; for (int i = 0; i < cuts; ++i) { int c = int(sx_concrete(sx_int(0, to, i ? "cut2" : "cut1"))); sx_assume(c >= at); feedTo(s, e.bytes.mid(at, c - at)); at = c; } feedTo(s, e.bytes.mid(at, to - at));
	if (end == 0 && e.untilClose) s->sxRemoteClosed(); else if (end == 1) s->sxRemoteClosed(); else if (end == 2) s->sxFail(QAbstractSocket::SocketTimeoutError); else if (end == 3) w.r->abort();
	sx_out_int("fin", w.fin); sx_out_int("error", int(w.r->error())); sx_assert(w.fin == 1 && w.r->isFinished() && !w.r->isRunning(), "the reply finishes exactly once");
	if (end == 0) { sx_cover("succeeded"); sx_assert(w.r->error() == QNetworkReply::NoError && w.errs == 0, "a complete response is no error"); sx_assert(w.meta == 1, "the head is announced"); checkHead(w.r, e); } else { sx_cover("failed"); sx_assert(w.r->error() == errorOf(end), "the reply keeps the error of its request"); sx_assert(w.errs == 1 && w.lastError == int(w.r->error()), "and reported it once"); }
	w.rest(); sx_out("body", w.body.constData(), w.body.size()); if (end == 0) sx_assert(same(w.body, e.head ? QByteArray() : e.body), "the content is exactly what was received"); else sx_assert(w.body.size() <= e.body.size() && sx_eq(w.body.constData(), e.body.constData(), w.body.size()), "the content is what was received, in order");
	w.r->abort(); sx_process_events(); sx_assert(w.fin == 1, "nothing after the end"); delete w.r;
}
// A malformed response fails the reply. param: kind, way
extern "C" void nam_bad() {
	static const char *const texts[] = { "HTTP/1.1 2x0 OK\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: ?\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n?\r\n", "FTP" }; Pillow::NetworkAccessManager nam; nam.setCookieJar(new NoJar); QByteArray t = texts[sx_param(0)], c = symBytes(1, "bad"); char ch = c.at(0); unsigned char u = (unsigned char)ch; int p = -1; for (int i = 0; i < t.size(); ++i) if (t.at(i) == '?' || t.at(i) == 'F') { p = i; break; } if (sx_param(0) == 3) sx_assume(ch != 'H' && ch != '\r' && ch != '\n'); else { sx_assume(u > 'f' || ch == '?' || ch == ':'); if (sx_param(0) == 2) sx_assume(true); } if (p >= 0) t[p] = ch;
	Watch w(nam.get(requestFor("http://h/p")), int(sx_param(1))); SxTcpSocket *s = SxTcpSocket::last; settleAll(s); int cut = int(sx_concrete(sx_int(0, t.size(), "cut"))); feedTo(s, t.left(cut)); feedTo(s, t.mid(cut)); sx_out_int("error", int(w.r->error())); sx_assert(w.fin == 1 && w.r->isFinished(), "a malformed response ends the reply"); sx_assert(w.r->error() == QNetworkReply::ProtocolUnknownError && w.errs == 1, "a malformed response is an error"); w.rest(); QByteArray all = sx_param(0) == 2 ? "ab" : ""; sx_assert(w.body.size() <= all.size() && sx_eq(w.body.constData(), all.constData(), w.body.size()), "the content is what was received, in order"); sx_cover("malformed"); delete w.r;
}
// A long content read piecewise. param: size, framing (0 length, 1 chunked, 2 until close), largest single read
extern "C" void nam_large() {
	int size = int(sx_param(0)), framing = int(sx_param(1)), piece = int(sx_param(2)); QByteArray body(size, 'b'); for (int i = 0; i < size; i += 97) body[i] = char('a' + (i / 97) % 26); QByteArray m = symBytes(2, "mark"); body[0] = m.at(0); body[size - 1] = m.at(1);
	QByteArray b = "HTTP/1.1 200 OK\r\n"; if (framing == 0) b += "Content-Length: " + num(size) + "\r\n\r\n" + body; else if (framing == 1) { b += "Transfer-Encoding: chunked\r\n\r\n"; int half = size / 2; b += QByteArray::number(half, 16) + "\r\n" + body.left(half) + "\r\n" + QByteArray::number(size - half, 16) + "\r\n" + body.mid(half) + "\r\n0\r\n\r\n"; } else b += "\r\n" + body;
	Pillow::NetworkAccessManager nam; nam.setCookieJar(new NoJar); Watch w(nam.get(requestFor("http://h/p")), 0); SxTcpSocket *s = SxTcpSocket::last; settleAll(s); static const int offs[] = { 0, 40, 63, 64, 1024, 4096, 16384, 16385, 32768, 65536 }; int cut = offs[sx_concrete(sx_int(0, 9, "cut"))]; sx_assume(cut < b.size()); int readAt = int(sx_concrete(sx_int(0, 2, "when")));
	QByteArray got; auto take = [&](qint64 n) { while (w.r->isOpen() && n > 0) { QByteArray x = w.r->read(n > piece ? piece : n); if (x.isEmpty()) break; got.append(x); n -= x.size(); } }; w.onReady = [&] { if (readAt == 1) take(w.r->bytesAvailable()); else if (readAt == 2) take(w.r->bytesAvailable() / 2); };
	feedTo(s, b.left(cut)); feedTo(s, b.mid(cut)); if (framing == 2) s->sxRemoteClosed(); sx_assert(w.fin == 1 && w.r->error() == QNetworkReply::NoError, "the reply finishes exactly once"); take(w.r->bytesAvailable()); sx_out_int("size", got.size()); sx_assert(same(got, body), "the content is exactly what was received"); sx_cover("large"); delete w.r;
}
// ---- histories of requests to several servers
namespace {
struct Exch { Watch *w; QPointer<QNetworkReply> r; int server, sock, sent, how; bool over, dropped; QByteArray text, body, tag; int headEnd; bool untilClose, bad; };
struct Farm {
	Pillow::NetworkAccessManager *nam; QList<SxTcpSocket *> socks; QList<Exch *> ex; QList<int> home; int created, kind, reWhere, reWhat; bool fired; int way;
	Farm() : nam(new Pillow::NetworkAccessManager), created(0), kind(0), reWhere(0), reWhat(0), fired(false), way(1) { nam->setCookieJar(new NoJar); created = SxTcpSocket::created; }
	static const char *authority(int s) { static const char *const n[] = { "h", "h:81", "g" }; return n[s]; }
	static const char *hostOf(int s) { return s == 2 ? "g" : "h"; } static int portOf(int s) { return s == 1 ? 81 : 80; }
	void ask(int server) {
		Exch *e = new Exch; int n = ex.size(); e->tag = num(n); e->server = server; e->sock = -1; e->sent = 0; e->how = 0; e->over = e->dropped = false; e->untilClose = e->bad = false; int k = (kind + n) % 5; e->body = "S" + e->tag; QByteArray nl = "\r\nN: " + e->tag + "\r\n\r\n";
		switch (k) { case 0: e->text = "HTTP/1.1 200 OK\r\nContent-Length: 2" + nl; break; case 1: e->text = "HTTP/1.1 404 No\r\nTransfer-Encoding: chunked" + nl; break; case 2: e->text = "HTTP/1.0 200 OK" + nl; e->untilClose = true; break; case 3: e->text = "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 2" + nl; break; case 4: e->text = "HTTP/1.1 200 OK\r\nContent-Length: z" + nl; e->bad = true; break; }
		e->headEnd = e->text.size(); e->text += k == 1 ? "2\r\n" + e->body + "\r\n0\r\n\r\n" : e->body; if (n >= 10) sx_assume(false); ex.append(e); QByteArray u = QByteArray("http://") + authority(server) + "/r" + e->tag; int before = SxTcpSocket::created; QNetworkReply *r = nam->get(requestFor(u.constData())); if (SxTcpSocket::created != before) { sx_assert(SxTcpSocket::created == before + 1, "at most one client is made for a request"); socks.append(SxTcpSocket::last); home.append(server); } e->r = r; e->w = new Watch(r, way); Watch *w = e->w;
		w->onMeta = [this, e] { sx_assert(e->w->meta == 1, "the head is announced once"); sx_assert(same(e->r->rawHeader("N"), e->tag), "the reply shows the response to its own request"); inside(e, 1); };
		w->onReady = [this, e] { inside(e, 2); }; w->onError = [this, e] { sx_assert(e->how != 0, "an error is reported only if the request failed"); inside(e, 4); };
		w->onFinished = [this, e] { sx_assert(e->w->fin == 1, "a reply finishes once"); e->over = true; sx_assert(e->how == 0 ? done(e) : true, "no end before the response is complete"); sx_assert(e->r->error() == errorOf(e->how), "an error exactly when the request failed"); sx_assert(e->w->errs == (e->how ? 1 : 0), "reported exactly once"); if (e->w->meta) { QByteArray b = e->w->body + e->r->readAll(); e->w->body = b; sx_assert(b.size() <= e->body.size() && sx_eq(b.constData(), e->body.constData(), b.size()), "the content is what was received, in order"); if (e->how == 0) { sx_assert(same(b, e->untilClose ? e->body.left(e->sent - e->headEnd) : e->body), "the content is exactly what was received"); sx_cover("mirrored"); } } inside(e, 3); };
	}
	bool done(Exch *e) const { return e->untilClose || e->sent >= e->text.size(); }
	// every request is on one socket: find those just made, connecting what connects
	void settle() {
		sx_process_events(); for (int i = 0; i < socks.size(); ++i) if (socks.at(i)->state() == QAbstractSocket::ConnectingState) socks.at(i)->sxConnected(); sx_process_events();
		for (int n = 0; n < ex.size(); ++n) { Exch *e = ex.at(n); if (e->sock >= 0 || e->over) continue; QByteArray l = "GET /r" + e->tag + " "; for (int i = 0; i < socks.size(); ++i) if (has(socks.at(i)->out, l.constData())) { sx_assert(e->sock < 0, "a request is written once"); e->sock = i; } sx_assert(e->sock >= 0, "a request is written"); int s = e->sock;
			sx_assert(home.at(s) == e->server && same(latin(socks.at(s)->host), latin(QString::fromLatin1(hostOf(e->server)))) && socks.at(s)->port == portOf(e->server), "a client is used for one server only"); for (int m = 0; m < n; ++m) if (ex.at(m)->sock == s) { sx_cover("client used again"); sx_assert(ex.at(m)->over, "a client is used again only after it finished"); } }
	}
	void inside(Exch *e, int where) {
		if (fired || reWhere != where) return; fired = true; bool running = !e->over;
		switch (reWhat) { case 1: ask(e->server); break; case 2: ask((e->server + 1) % 3); break; case 3: if (running) { if (where != 4) e->how = 3; e->r->abort(); } else e->r->abort(); break; case 4: e->r->deleteLater(); if (!e->over) e->dropped = true; break; case 5: if (running && where != 4) { e->how = 3; e->r->abort(); ask(e->server); } break; case 6: ask(e->server); ask(e->server); break; }
	}
	Exch *pick(bool newest) { Exch *r = 0; for (int i = 0; i < ex.size(); ++i) if (!ex.at(i)->over && ex.at(i)->sock >= 0) { r = ex.at(i); if (!newest) break; } return r; }
	void feed(Exch *e, int n) { int left = e->text.size() - e->sent; if (n > left) n = left; if (n == 0) return; QByteArray b = e->text.mid(e->sent, n); e->sent += n; bool ends = e->sent >= e->headEnd; if (e->bad && ends) e->how = 4; feedTo(socks.at(e->sock), b); if (e->dropped && ((!e->untilClose && e->sent >= e->text.size()) || (e->bad && ends))) e->over = true; if (!e->dropped && !e->untilClose && e->sent >= e->text.size()) sx_assert(e->over, "a complete response ends the reply"); }
	void step(int op) {
		if (op < 3) { ask(op); settle(); return; } Exch *e = pick(op == 4); if (!e) { sx_assume(false); return; } SxTcpSocket *s = socks.at(e->sock); if (s->state() != QAbstractSocket::ConnectedState && op != 8 && op != 9) { sx_assume(false); return; }
		switch (op) {
		case 3: case 4: feed(e, 1000); if (!e->over && e->untilClose) { s->sxRemoteClosed(); if (e->dropped) e->over = true; } break;
		case 5: feed(e, e->sent < e->headEnd ? e->headEnd - e->sent : 1); break;
		case 6: if (!(e->untilClose && e->sent >= e->headEnd)) { e->how = 1; } s->sxRemoteClosed(); if (e->dropped) e->over = true; break;
		case 7: e->how = 2; s->sxFail(QAbstractSocket::NetworkError); if (e->dropped) e->over = true; break;
		case 8: if (e->dropped) { sx_assume(false); return; } e->how = 3; e->r->abort(); break;
		case 9: if (e->dropped) { sx_assume(false); return; } e->dropped = true; e->r->deleteLater(); break;
		}
		settle(); if (op != 5 && op != 9 && !e->dropped) sx_assert(e->over && e->w->fin == 1, "a reply finishes exactly once"); if (op == 6 || op == 7) sx_assert(e->dropped || e->over, "the end of the connection ends the reply");
	}
	void end() { settle(); for (int i = 0; i < ex.size(); ++i) { sx_out_int("fin", ex.at(i)->w->fin); sx_out("body", ex.at(i)->w->body.constData(), ex.at(i)->w->body.size()); sx_out_int("sock", ex.at(i)->sock); } delete nam; sx_process_events(); for (int i = 0; i < ex.size(); ++i) { sx_assert(ex.at(i)->w->fin <= 1, "a reply finishes at most once"); sx_assert(ex.at(i)->r.isNull(), "no reply outlives its manager"); delete ex.at(i)->w; delete ex.at(i); } }
};
}
// param: first response, where and what from within a notification, way of reading, number of further steps, first operation
extern "C" void nam_life() {
	Farm f; f.kind = int(sx_param(0)); f.reWhere = int(sx_param(1)); f.reWhat = int(sx_param(2)); f.way = int(sx_param(3)); int n = int(sx_param(4)); f.step(0); if (sx_param(5) >= 0) f.step(int(sx_param(5)));
	static const char *const names[] = { "op1", "op2", "op3", "op4", "op5" }; for (int i = 0; i < n; ++i) f.step(int(sx_concrete(sx_int(0, 9, names[i])))); f.end(); sx_cover("history");
}
