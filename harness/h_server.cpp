// The servers: whose connection object serves whom, and what state it is in (C28); what the secure server does before a request can be read (C33).
#include "common.h"
#include <new>
#include "HttpServer.h"
#include "HttpsServer.h"
#include "HttpConnection.h"
#include "pem.h"
#include <QtNetwork/QLocalSocket>
#include <QtNetwork/QSslKey>
#include <QtNetwork/QSslCertificate>
using namespace Pillow;
namespace {
// The server's end of a local socket.
struct LocalDev : public QLocalSocket {
	QByteArray in, out; static int alive; LocalDev() { ++alive; QIODevice::open(QIODevice::ReadWrite | QIODevice::Unbuffered); } ~LocalDev() { --alive; if (isOpen()) QIODevice::close(); }
	bool isSequential() const { return true; } qint64 bytesAvailable() const { return in.size(); } qint64 bytesToWrite() const { return 0; }
	void close() { if (!isOpen()) return; QIODevice::close(); in.clear(); emit disconnected(); } void feed(const QByteArray &b) { if (!isOpen()) return; in.append(b); emit readyRead(); } void gone() { emit readChannelFinished(); if (isOpen()) close(); }
	qint64 readData(char *d, qint64 n) { if (n > in.size()) n = in.size(); memcpy(d, in.constData(), size_t(n)); in.remove(0, int(n)); return n; } qint64 writeData(const char *d, qint64 n) { out.append(d, int(n)); return n; }
};
int LocalDev::alive;
struct Plain : public HttpServer { void come(qintptr fd) { incomingConnection(fd); } };
struct Secure : public HttpsServer { Secure() {} Secure(const QSslCertificate &c, const QSslKey &k) : HttpsServer(c, k, QHostAddress(QHostAddress::LocalHost), 0) {} void come(qintptr fd) { incomingConnection(fd); } };
struct Local : public HttpLocalServer { QList<QLocalSocket *> waiting; QLocalSocket *nextPendingConnection() { return waiting.isEmpty() ? 0 : waiting.takeFirst(); } bool hasPendingConnections() const { return !waiting.isEmpty(); } void come(QLocalSocket *s) { s->setParent(this); waiting.append(s); emit newConnection(); } };
// The server's end of a connection, of any kind.
struct End {
	QPointer<SxTcpSocket> t; QPointer<LocalDev> l; QByteArray lastOut; QIODevice *dev() const { return t ? static_cast<QIODevice *>(t.data()) : static_cast<QIODevice *>(l.data()); }
	bool released() const { return t.isNull() && l.isNull(); } bool open() const { return t ? t->state() == QAbstractSocket::ConnectedState && t->isOpen() : l ? l->isOpen() : false; }
	void feed(const QByteArray &b) { if (!open()) return; if (t) t->sxFeed(b); else if (l) l->feed(b); } void gone() { if (!open()) return; if (t) t->sxRemoteClosed(); else if (l) l->gone(); }
	const QByteArray &out() { if (t) lastOut = t->out; else if (l) lastOut = l->out; return lastOut; }
};
struct Any { // a server of one of three kinds
	int kind; QObject *o; Any(int k) : kind(k), o(0) { if (k == 0) o = new Plain; else if (k == 1) { Secure *s = new Secure; s->setPrivateKey(QSslKey(QByteArray(pemKeys[0]), QSsl::Ec)); s->setCertificate(QSslCertificate(QByteArray(pemCerts[0]))); o = s; } else o = new Local; }
	End come(int fd = 7) { End e; if (kind == 2) { LocalDev *d = new LocalDev; e.l = d; static_cast<Local *>(o)->come(d); return e; } int before = SxTcpSocket::created; if (kind == 0) static_cast<Plain *>(o)->come(fd); else static_cast<Secure *>(o)->come(fd); sx_assert(SxTcpSocket::created == before + 1, "one socket for each connection"); e.t = SxTcpSocket::last; return e; }
	template <typename F> void onRequest(F f) { if (kind == 2) QObject::connect(static_cast<HttpLocalServer *>(o), &HttpLocalServer::requestReady, f); else QObject::connect(static_cast<HttpServer *>(o), &HttpServer::requestReady, f); }
	int objects() const { int n = 0; const QObjectList &c = o->children(); for (int i = 0; i < c.size(); ++i) if (qobject_cast<HttpConnection *>(c.at(i))) ++n; return n; }
};
enum { Limit = 25 };
}
// ---- C28: a connection object used before serves the next client exactly like a new one
namespace {
// answers in one of several ways; true if a response was completed
void answer(HttpConnection *c, int way) {
	switch (way) {
	case 0: c->writeResponse(200, HttpHeaderCollection(), "ok"); break;
	case 1: c->writeHeaders(200, HttpHeaderCollection() << HttpHeader("Content-Length", "10")); c->writeContent("abc"); break;
	case 2: c->writeHeaders(200, HttpHeaderCollection()); c->writeContent("chunk"); break;
	case 3: break;
	case 4: c->writeHeaders(200, HttpHeaderCollection()); c->writeContent("chunk"); c->endContent(); break;
	case 5: c->close(); break;
	case 6: c->writeHeaders(201, HttpHeaderCollection() << HttpHeader("X", "y") << HttpHeader("Content-Length", "3")); break;
	case 7: c->writeResponse(404, HttpHeaderCollection() << HttpHeader("Connection", "close"), "no"); break;
	case 8: c->writeResponse(200, HttpHeaderCollection() << HttpHeader("L", QByteArray(5000, 'l')), QByteArray(6000, 'c')); break;
	case 9: c->requestParams(); c->requestParamValue("a"); c->requestPathDecoded(); c->requestQueryStringDecoded(); c->requestUriDecoded(); c->requestFragmentDecoded(); c->setRequestParam("extra", "1"); c->requestHeaders(); c->writeResponse(200, HttpHeaderCollection(), "ok"); break;
	}
}
QByteArray before(int k) {
	switch (k) {
	case 0: return "GET /first?a=1&b=2#f HTTP/1.1\r\nHost: old\r\nX: 1\r\nY: 2\r\n\r\n"; case 1: return "POST /first HTTP/1.1\r\nHost: old\r\nContent-Length: 20\r\n\r\n0123456789abcdefghij"; case 2: return "GET /bad\r\nHost old\r\n\r\n"; case 3: return "POST /big HTTP/1.1\r\nContent-Length: 999999999\r\n\r\nxx"; case 4: return "HEAD /h HTTP/1.1\r\nHost: old\r\n\r\n";
	case 5: { QByteArray r = "GET /many?"; for (int i = 0; i < 20; ++i) r += "k" + num(i) + "=v&"; r += " HTTP/1.1\r\n"; for (int i = 0; i < 30; ++i) r += "H" + num(i) + ": v\r\n"; return r + "\r\n"; } case 6: return "GET /old HTTP/1.0\r\nConnection: close\r\n\r\n"; case 7: return "POST /e HTTP/1.1\r\nExpect: 100-continue\r\nContent-Length: 4\r\n\r\nbody"; case 8: return "GET /l HTTP/1.1\r\nLong: " + QByteArray(34000, 'x') + "\r\n\r\n";
	case 9: return "GET /1 HTTP/1.1\r\n\r\nGET /2 HTTP/1.1\r\nHost: two\r\n\r\nGET /3"; case 10: return "POST /huge HTTP/1.1\r\nContent-Length: 70000\r\n\r\n" + QByteArray(70000, 'h'); default: return "";
	}
}
struct Heard { QByteArray log; HttpConnection *last; int requests, completed, closed, way; QList<HttpConnection *> known; bool on; Heard() : last(0), requests(0), completed(0), closed(0), way(0), on(true) {}
	void watch(Any &s) { s.onRequest([this](HttpConnection *c) {
		last = c; if (!on) { answer(c, way); return; } ++requests; log.append('R'); log.append(snapshot(c)); log.append(decodedSnapshot(c)); log.append(num(int(c->state()))); bool fresh = true; for (int i = 0; i < known.size(); ++i) if (known.at(i) == c) fresh = false; if (fresh) { known.append(c);
		QObject::connect(c, &HttpConnection::requestCompleted, [this](HttpConnection *) { if (on) { ++completed; log.append('C'); } }); QObject::connect(c, &HttpConnection::closed, [this](HttpConnection *) { if (on) { ++closed; log.append('X'); } }); }
		answer(c, way); }); } };
void nextClient(End &e, Heard &h, const QByteArray &b, int cut, bool gone) { e.feed(b.left(cut)); sx_process_events(); e.feed(b.mid(cut)); sx_process_events(); if (gone) e.gone(); sx_process_events(); (void)h; }
QByteArray next(int k) {
	switch (k) {
	case 0: return "GET /n" + symText(2, "n", "?#") + " HTTP/1.1\r\n\r\n"; case 1: return "POST /n?x=" + symText(1, "n", "#") + " HTTP/1.1\r\nContent-Length: 3\r\n\r\n" + symBytes(3, "c"); case 2: return "HEAD /n HTTP/1.1\r\nHost: new\r\n\r\n"; case 3: return "GET / HTTP/1.0\r\n\r\n"; case 4: return "GET /a HTTP/1.1\r\nA: " + symText(1, "n") + "\r\n\r\nGET /b HTTP/1.1\r\nHost: b\r\nC: d\r\n\r\n"; case 5: return "GET " + symBytes(2, "n") + "HTTP/1.1\r\n\r\n"; case 6: return "POST /m HTTP/1.1\r\nExpect: 100-continue\r\nContent-Length: 2\r\n\r\nzz"; default: return "GET /" + QByteArray(300, 'u') + " HTTP/1.1\r\nHost: h\r\n\r\n";
	}
}
}
// param: kind of server, the client before, how it was answered, how it ended (0 it left, 1 the application closed, 2 it left in the middle), the next client, how it is answered, both cut anywhere at once
extern "C" void server_reuse() {
	int kind = int(sx_param(0)), pk = int(sx_param(1)), pw = int(sx_param(2)), pe = int(sx_param(3)), nk = int(sx_param(4)), nw = int(sx_param(5)); Any used(kind), fresh(kind); Heard a, b; a.watch(used); b.watch(fresh); a.way = b.way = 0;
	QList<End> idle; for (int i = 0; i < Limit - 1; ++i) idle.append(used.come()); // all but one of the pool serve others
	End p = used.come(); a.on = false; a.way = pw; QByteArray t = before(pk); int upTo = t.size(); if (pe == 2) { if (upTo > 200) { static const int offs[] = { 1, 30, 100, 101 }; upTo = offs[sx_concrete(sx_int(0, 3, "stop"))]; } else upTo = int(sx_concrete(sx_int(0, t.size(), "stop"))); } p.feed(t.left(upTo)); sx_process_events(); HttpConnection *old = a.last; if (pe == 1 && old && p.open()) old->close(); else p.gone(); sx_process_events();
	sx_assert(p.released(), "the socket of a closed connection is released"); sx_assert(used.objects() == Limit, "a closed connection is back in the pool"); a.on = true; a.way = b.way = nw; a.last = 0;
	End x = used.come(), y = fresh.come(); sx_assert(used.objects() == Limit, "and serves the next client"); QByteArray n = next(nk); int cut = n.size() > 100 || !(pe != 2 || sx_param(6)) ? n.size() / 2 : int(sx_concrete(sx_int(0, n.size(), "cut"))); nextClient(x, a, n, cut, false); nextClient(y, b, n, cut, false); if (old && a.last == old) sx_cover("same object"); if (a.requests) sx_cover("request served"); else sx_cover("request refused");
	sx_out("out", x.out().constData(), x.out().size()); sx_out("log", a.log.constData(), a.log.size()); sx_assert(same(x.out(), y.out()), "the next client receives exactly what a new connection would send"); sx_assert(same(a.log, b.log), "and the application sees exactly its requests"); sx_assert(x.open() == y.open(), "and it is open or closed alike"); x.gone(); y.gone(); sx_process_events(); sx_assert(same(a.log, b.log), "to its end"); sx_assert(x.released(), "the socket of a closed connection is released");
	for (int i = 0; i < idle.size(); ++i) sx_assert(idle[i].open() && idle[i].out().isEmpty(), "no one else is affected"); delete used.o; delete fresh.o; sx_process_events(); sx_cover("reused");
}
// param: kind of device, the client before, how it was answered, how it ended (0 it left, 1 the application closed, 2 it left in the middle), the next client, how it is answered: the next client's device has the address of the previous one
namespace {
template <typename D> void sameAddress() {
	int pk = int(sx_param(1)), pw = int(sx_param(2)), pe = int(sx_param(3)), nk = int(sx_param(4)), nw = int(sx_param(5)); Heard a, b; HttpConnection used, fresh; void *place = malloc(sizeof(D)); D *p = new (place) D, other;
	struct Both { Heard *h; void on(HttpConnection *c) { Heard *k = h; QObject::connect(c, &HttpConnection::requestReady, [k](HttpConnection *q) { if (!k->on) { k->last = q; answer(q, k->way); return; } ++k->requests; k->log.append('R'); k->log.append(snapshot(q)); k->log.append(decodedSnapshot(q)); answer(q, k->way); }); QObject::connect(c, &HttpConnection::requestCompleted, [k](HttpConnection *) { if (k->on) k->log.append('C'); }); QObject::connect(c, &HttpConnection::closed, [k](HttpConnection *) { if (k->on) k->log.append('X'); }); } };
	Both ba = { &a }, bb = { &b }; ba.on(&used); bb.on(&fresh); a.on = false; a.way = pw; used.initialize(p, p); QByteArray t = before(pk); int upTo = t.size(); if (pe == 2) { if (upTo > 200) { static const int offs[] = { 1, 30, 100, 101 }; upTo = offs[sx_concrete(sx_int(0, 3, "stop"))]; } else upTo = int(sx_concrete(sx_int(0, t.size(), "stop"))); }
	p->feed(t.left(upTo)); sx_process_events(); if (pe == 1) used.close(); else p->close(); sx_process_events(); sx_assert(used.state() == HttpConnection::Closed, "a connection whose device is gone is closed"); p->~D(); memset(place, 0, sizeof(D)); p = new (place) D;
	a.on = true; a.way = b.way = nw; used.initialize(p, p); fresh.initialize(&other, &other); QByteArray n = next(nk); int cut = n.size() > 100 || pe == 2 ? n.size() / 2 : int(sx_concrete(sx_int(0, n.size(), "cut"))); p->feed(n.left(cut)); other.feed(n.left(cut)); sx_process_events(); p->feed(n.mid(cut)); other.feed(n.mid(cut)); sx_process_events(); if (a.requests) sx_cover("request served"); else sx_cover("request refused");
	sx_out("out", p->out.constData(), p->out.size()); sx_assert(same(p->out, other.out), "the next client receives exactly what a new connection would send"); sx_assert(same(a.log, b.log), "and the application sees exactly its requests"); sx_assert(p->isOpen() == other.isOpen(), "and it is open or closed alike"); p->close(); other.close(); sx_process_events(); sx_assert(same(a.log, b.log), "to its end"); sx_assert(used.state() == fresh.state(), "alike"); p->~D(); free(place); sx_cover("address used again");
}
}
extern "C" void server_address() { if (sx_param(0)) sameAddress<LocalDev>(); else sameAddress<MemDevice>(); }
// ---- C28: histories
namespace {
struct Client { End e; int serial; HttpConnection *conn; int asked, pending; QByteArray expect; bool over; };
struct Hall {
	Any s; QList<Client *> cs; int serial, reWhere, reWhat, direct; bool fired; int skip;
	Hall(int kind, int w, int r, int d) : s(kind), serial(0), reWhere(w), reWhat(r), direct(d), fired(false), skip(0) { s.onRequest([this](HttpConnection *c) { request(c); }); }
	Client *of(QIODevice *d) { for (int i = 0; i < cs.size(); ++i) if (!cs.at(i)->over && d && cs.at(i)->e.dev() == d) return cs.at(i); return 0; }
	void add() { Client *c = new Client; c->serial = serial++; c->conn = 0; c->asked = c->pending = 0; c->over = false; cs.append(c); c->e = s.come(); }
	void refuse() { if (s.kind == 2) { sx_assume(false); return; } int objects = s.objects(), alive = SxTcpSocket::alive; int keep = SxTcpSocket::badFd; SxTcpSocket::badFd = 9; End e = s.come(9); SxTcpSocket::badFd = keep; sx_assert(e.released() && SxTcpSocket::alive == alive, "a socket that cannot be adopted is released"); sx_assert(s.objects() == objects, "and is served by no connection"); }
	QByteArray text(Client *c) { return "GET /c" + num(c->serial) + "/" + num(c->asked) + " HTTP/1.1\r\n\r\n"; }
	QByteArray body(Client *c, int n) { return "r" + num(c->serial) + "." + num(n); }
	void request(HttpConnection *c) {
		Client *k = of(c->inputDevice()); sx_assert(k != 0, "a request comes from an open connection"); if (!k) return; sx_assert(c->state() == HttpConnection::SendingHeaders, "and waits for its response"); for (int i = 0; i < cs.size(); ++i) if (cs.at(i) != k && !cs.at(i)->over) sx_assert(cs.at(i)->conn != c, "each client has a connection object of its own"); if (k->conn) sx_assert(k->conn == c, "the same for as long as it is connected"); else { k->conn = c;
			QObject::connect(c, &HttpConnection::closed, s.o, [this, c](HttpConnection *) { closed(c); }); QObject::connect(c, &HttpConnection::requestCompleted, s.o, [this, c](HttpConnection *) { Client *q = of(c->inputDevice()); if (q && q->conn == c) inside(2, q); }); }
		sx_assert(same(c->requestPath(), "/c" + num(k->serial) + "/" + num(k->asked)), "requests are delivered to whom they belong, in order"); ++k->asked; ++k->pending; sx_cover("request"); inside(1, k); if (direct && !k->over && k->pending && c->state() == HttpConnection::SendingHeaders) reply(k); }
	void closed(HttpConnection *c) { Client *k = 0; for (int i = 0; i < cs.size(); ++i) if (!cs.at(i)->over && cs.at(i)->conn == c) k = cs.at(i); if (!k) return; k->over = true; k->e.out(); inside(3, k); }
	void reply(Client *k) { int n = k->asked - k->pending; (void)n; QByteArray b = body(k, k->asked - 1); --k->pending; k->expect += "HTTP/1.1 200 OK\r\nContent-Length: " + num(b.size()) + "\r\nContent-Type: text/plain\r\n\r\n" + b; k->conn->writeResponse(200, HttpHeaderCollection(), b); }
	Client *live(bool newest, Client *not_ = 0, bool pending = false) { Client *r = 0; for (int i = 0; i < cs.size(); ++i) if (!cs.at(i)->over && cs.at(i) != not_ && cs.at(i)->e.open() && (!pending || cs.at(i)->pending)) { r = cs.at(i); if (!newest) break; } return r; }
	void leave(Client *k) { k->e.out(); k->e.gone(); if (!k->conn) k->over = true; }
	void inside(int where, Client *k) {
		if (fired || where != reWhere || skip-- > 0) return; fired = true; Client *o = live(false, k), *p = live(false, k, true);
		switch (reWhat) { case 1: add(); break; case 2: if (p) p->conn->close(); break; case 3: if (o) leave(o); break; case 4: if (!k->over) k->conn->close(); break; case 5: if (!k->over) { k->conn->close(); add(); } break; case 6: for (int i = 0; i < 3; ++i) add(); break; case 7: if (!k->over) leave(k); break; case 8: add(); { Client *n = cs.last(); n->e.feed(text(n)); } break; }
	}
	void check() {
		sx_process_events(); int open = 0; for (int i = 0; i < cs.size(); ++i) { Client *k = cs.at(i); if (!k->over && !k->e.open()) k->over = true; if (k->over) { sx_assert(k->e.released(), "the socket of a closed connection is released"); continue; } ++open; sx_assert(same(k->e.out(), k->expect), "a client receives exactly the responses to its own requests"); }
		int n = s.objects(); sx_assert(n >= open && n - open <= Limit, "the pool does not exceed its limit");
	}
	void step(int op) {
		switch (op) {
		case 0: add(); break; case 1: refuse(); break;
		case 2: case 3: { Client *k = live(op == 2); if (!k || k->pending) { sx_assume(false); return; } k->e.feed(text(k)); break; }
		case 4: { Client *k = live(false, 0, true); if (!k) { sx_assume(false); return; } reply(k); break; }
		case 5: case 6: { Client *k = live(op == 6); if (!k) { sx_assume(false); return; } leave(k); break; }
		case 7: { Client *k = live(false, 0, true); if (!k) { sx_assume(false); return; } k->conn->close(); break; }
		case 8: { Client *k = live(true); if (!k || k->pending) { sx_assume(false); return; } k->e.feed("BAD\r\n\r\n\r\n"); k->over = true; break; }
		case 9: { Client *k = live(false); if (!k || k->pending) { sx_assume(false); return; } QByteArray t = text(k); k->e.feed(t.left(7)); sx_process_events(); k->e.feed(t.mid(7)); break; }
		}
		check();
	}
	void end(bool quiet) {
		if (quiet) { for (int i = 0; i < cs.size(); ++i) if (!cs.at(i)->over) leave(cs.at(i)); sx_process_events(); for (int i = 0; i < cs.size(); ++i) cs.at(i)->over = true; fired = true; direct = 1; check(); sx_assert(s.kind == 2 ? LocalDev::alive == 0 : SxTcpSocket::alive == 0, "every socket is released"); sx_assert(s.objects() <= Limit, "the pool does not exceed its limit"); int from = cs.size(); for (int i = 0; i < (from > 20 ? Limit + 2 : 3); ++i) { add(); Client *k = cs.last(); k->e.feed(text(k)); } check(); for (int i = from; i < cs.size(); ++i) sx_assert(cs.at(i)->asked == 1 && !cs.at(i)->expect.isEmpty(), "everyone after is served"); }
		for (int i = 0; i < cs.size(); ++i) { sx_out_int("asked", cs.at(i)->asked); cs.at(i)->over = true; } delete s.o; sx_process_events(); sx_assert(s.kind == 2 ? LocalDev::alive == 0 : SxTcpSocket::alive == 0, "every socket is released"); sx_cover(quiet ? "quiet end" : "sudden end");
	}
};
}
// param: kind of server, connections to begin with, answered at once, where and what from within a notification, steps
extern "C" void server_history() {
	int n0 = int(sx_param(1)), n = int(sx_param(5)); Hall h(int(sx_param(0)), int(sx_param(3)), int(sx_param(4)), int(sx_param(2))); for (int i = 0; i < n0; ++i) h.add(); if (n0 > 3) { for (int i = 0; i < n0; ++i) if (i < 2 || i >= n0 - 3) { Client *k = h.cs.at(i); k->e.feed(h.text(k)); } h.check(); }
	static const char *const names[] = { "op1", "op2", "op3", "op4", "op5", "op6" }; for (int i = 0; i < n; ++i) h.step(int(sx_concrete(sx_int(0, 9, names[i])))); h.end(sx_concrete(sx_int(0, 1, "how")) != 0);
}
// many at once, leaving in some order: the pool is filled to its limit and beyond. param: kind of server, how many, where and what from within
extern "C" void server_many() {
	int n = int(sx_param(1)); Hall h(int(sx_param(0)), int(sx_param(2)), int(sx_param(3)), 0); if (sx_param(2) == 3) h.skip = int(sx_concrete(sx_int(0, n - 1, "when"))); for (int i = 0; i < n; ++i) { h.add(); Client *k = h.cs.at(i); k->e.feed(h.text(k)); } h.check(); int order = int(sx_concrete(sx_int(0, 3, "order"))), how = int(sx_concrete(sx_int(0, 2, "how1")));
	for (int i = 0; i < n; ++i) { int j = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7) % n : (i % 2 ? n - 1 - i / 2 : i / 2); Client *k = h.cs.at(j); if (k->over) continue; if (how == 0) h.leave(k); else if (how == 1) k->conn->close(); else { h.reply(k); h.leave(k); } if (i % 5 == 4) h.check(); } h.check(); h.end(true);
}
// ---- C33
// param: how key and certificate are given (0, 2, 3, 5 setters, 1, 4 constructor; from 2 on some are missing), which, early bytes, then as the history of a client
extern "C" void server_secure() {
	int how = int(sx_param(0)), early = int(sx_param(1)), client = int(sx_param(2)); int k1 = int(sx_concrete(sx_int(0, 1, "key"))), c1 = (how == 1 || how == 3 ? 1 - k1 : k1); QSslKey keys[2] = { QSslKey(QByteArray(pemKeys[0]), QSsl::Ec), QSslKey(QByteArray(pemKeys[1]), QSsl::Ec) }; QSslCertificate certs[2] = { QSslCertificate(QByteArray(pemCerts[0])), QSslCertificate(QByteArray(pemCerts[1])) };
	if (how >= 2) { const QSslKey noKey; const QSslCertificate noCert; keys[0] = noKey; certs[0] = noCert; } // 2 to 5: one or the other is left out, at first or later
	Secure *s = how == 1 || how == 4 ? new Secure(certs[c1], keys[k1]) : new Secure; if (how == 5 && !k1 && !c1) ; else if (how != 1 && how != 4) { s->setPrivateKey(keys[k1]); s->setCertificate(certs[c1]); } sx_assert(s->privateKey() == keys[k1] && s->certificate() == certs[c1], "the configuration is kept"); int requests = 0; HttpConnection *last = 0; QByteArray log; QObject::connect(s, &HttpServer::requestReady, [&](HttpConnection *c) { ++requests; last = c; SxSslSocket *d = qobject_cast<SxSslSocket *>(c->inputDevice()); sx_assert(d && d->encrypting && d->sslStarted == 1, "no request is handled before encryption has begun"); log.append(snapshot(c)); answer(c, int(sx_param(3))); });
	QByteArray hello = early == 1 ? QByteArray("GET /plain HTTP/1.1\r\n\r\n") : early == 2 ? symBytes(3, "hello") : QByteArray(); if (early) SxTcpSocket::early = &hello; int rounds = 3;
	for (int i = 0; i < rounds; ++i) {
		if (i == 1) { c1 = 1 - c1; s->setCertificate(certs[c1]); } if (i == 2) { k1 = 1 - k1; s->setPrivateKey(keys[k1]); } bool bad = sx_concrete(sx_int(0, 1, i == 0 ? "bad0" : i == 1 ? "bad1" : "bad2")) != 0; SxTcpSocket::badFd = bad ? 7 : -1; int alive = SxTcpSocket::alive, created = SxTcpSocket::created; int objects = 0; { const QObjectList &l = s->children(); for (int j = 0; j < l.size(); ++j) if (qobject_cast<HttpConnection *>(l.at(j))) ++objects; } s->come(7); sx_assert(SxTcpSocket::created == created + 1, "one socket for each connection");
		if (bad) { sx_process_events(); sx_assert(SxTcpSocket::alive == alive, "a socket that cannot be adopted is released"); int now = 0; const QObjectList &l = s->children(); for (int j = 0; j < l.size(); ++j) if (qobject_cast<HttpConnection *>(l.at(j))) ++now; sx_assert(now == objects && !s->hasPendingConnections(), "and serves nothing"); sx_cover("not adopted"); continue; }
		SxSslSocket *d = SxSslSocket::lastSsl; sx_assert(d && static_cast<SxTcpSocket *>(d) == SxTcpSocket::last, "a secure socket"); sx_assert(d->sslStarted == 1 && d->encrypting, "is put into server encryption"); if (how < 2) sx_assert(d->readyAtStart && d->sslKeyed >= 1 && d->sslCert >= 1, "given a key and a certificate before"); else sx_cover("incomplete"); sx_assert(d->key == keys[k1] && d->cert == certs[c1], "those configured"); QPointer<SxTcpSocket> q(d); int had = requests; sx_process_events(); sx_assert(requests == had, "no request is read from before encryption"); sx_assert(d->readsBeforeEncryption == 0 && d->writesBeforeEncryption == 0, "nothing is read or written before encryption"); sx_assert(!s->hasPendingConnections(), "the connection is taken");
		// served like a plain connection
		Any plain(0); Heard h; h.watch(plain); h.way = int(sx_param(3)); End x, y; x.t = d; { QByteArray *e = SxTcpSocket::early; SxTcpSocket::early = 0; y = plain.come(); SxTcpSocket::early = e; } d->emit encrypted(); QByteArray n = next(i ? 3 : client); int cut = i || n.size() > 100 ? 0 : int(sx_concrete(sx_int(0, n.size(), "cut0"))); log = QByteArray(); nextClient(x, h, n, cut, false); nextClient(y, h, n, cut, false); sx_out("out", x.out().constData(), x.out().size()); sx_assert(same(x.out(), y.out()), "it is then served exactly like a plain connection"); sx_assert(requests - had == h.requests, "the same requests"); sx_assert(x.open() == y.open(), "to the same end"); if (requests > had) sx_cover("served");
		if (i == 0) { x.gone(); sx_process_events(); sx_assert(q.isNull(), "the socket of a closed connection is released"); } y.gone(); delete plain.o; sx_process_events();
	}
	SxTcpSocket::early = 0; SxTcpSocket::badFd = -1; delete s; sx_process_events(); sx_assert(SxTcpSocket::alive == 0, "every socket is released"); sx_cover("secure");
}
