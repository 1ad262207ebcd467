// Shared by the harnesses: an in-memory device whose peer is the harness, a recorder of what the application sees, and
// an independent reader of HTTP/1.x messages (the oracle's view of the bytes on the wire).
#pragma once
#include "qtall.h"
#include "sx.h"
#include "HttpConnection.h"
#include "HttpHeader.h"
class MemDevice : public QIODevice {
public:
	QByteArray in, out; bool slow, eager; qint64 unsent; int writes;
	MemDevice() : slow(false), eager(false), unsent(0), writes(0) { open(QIODevice::ReadWrite | QIODevice::Unbuffered); }
	bool isSequential() const { return true; }
	qint64 bytesAvailable() const { return in.size(); }
	qint64 bytesToWrite() const { return unsent; }
	void feed(const QByteArray &b) { if (!isOpen()) return; in.append(b); emit readyRead(); }
	void drain(qint64 n) { if (n > unsent) n = unsent; unsent -= n; if (n > 0) emit bytesWritten(n); }
protected:
	qint64 readData(char *d, qint64 n) { if (n > in.size()) n = in.size(); memcpy(d, in.constData(), size_t(n)); in.remove(0, int(n)); return n; }
	qint64 writeData(const char *d, qint64 n) { out.append(d, int(n)); ++writes; if (slow) unsent += n; if (eager) emit bytesWritten(n); return n; }
};
static inline bool same(const QByteArray &a, const QByteArray &b) { if (a.size() != b.size()) return false; return sx_eq(a.constData(), b.constData(), a.size()); }
static inline bool same(const QByteArray &a, const char *b) { int n = int(strlen(b)); if (a.size() != n) return false; return sx_eq(a.constData(), b, n); }
static inline bool same(const QString &a, const QString &b) { if (a.size() != b.size()) return false; return sx_eq(a.constData(), b.constData(), a.size() * 2); }
static inline bool starts(const QByteArray &a, const char *b) { int n = int(strlen(b)); if (a.size() < n) return false; return sx_eq(a.constData(), b, n); }
static inline bool has(const QByteArray &a, const char *b) { int n = int(strlen(b)); for (int i = 0; i + n <= a.size(); ++i) if (memcmp(a.constData() + i, b, n) == 0) return true; return false; }
static inline QByteArray num(long v) { char b[24]; int n = 24; bool neg = v < 0; unsigned long u = neg ? 0ul - (unsigned long)v : (unsigned long)v; do { b[--n] = char('0' + u % 10); u /= 10; } while (u); if (neg) b[--n] = '-'; return QByteArray(b + n, 24 - n); }
static inline QByteArray symBytes(int n, const char *name) { QByteArray r(n, 'a'); sx_bytes(r.data(), n, name); return r; }
// n symbolic bytes with no control characters or any byte of `not_`
static inline QByteArray symText(int n, const char *name, const char *not_ = "") {
	QByteArray r = symBytes(n, name);
	for (int i = 0; i < n; ++i) { unsigned char c = (unsigned char)r.constData()[i]; sx_assume(c > 32); sx_assume(c < 127); for (const char *p = not_; *p; ++p) sx_assume(r.constData()[i] != *p); }
	return r;
}
static inline char lower(char c) { return (c >= 'A' && c <= 'Z') ? char(c + 32) : c; }
static inline bool ciEqual(const QByteArray &a, const char *b) { int n = int(strlen(b)); if (a.size() != n) return false; for (int i = 0; i < n; ++i) if (lower(a.constData()[i]) != lower(b[i])) return false; return true; }
static inline void put(QByteArray &log, const QByteArray &b) { log.append(num(sx_concrete(b.size()))); log.append(':'); log.append(b); }
// What the application sees of one request, as bytes.
static inline QByteArray snapshot(Pillow::HttpConnection *s) {
	QByteArray r; put(r, s->requestMethod()); put(r, s->requestUri()); put(r, s->requestPath()); put(r, s->requestQueryString()); put(r, s->requestFragment()); put(r, s->requestHttpVersion());
	const Pillow::HttpHeaderCollection &h = s->requestHeaders(); r.append(num(h.size())); for (int i = 0; i < h.size(); ++i) { put(r, h.at(i).first); put(r, h.at(i).second); }
	put(r, s->requestContent()); return r;
}
static inline QByteArray latin(const QString &s) { QByteArray r; for (int i = 0; i < s.size(); ++i) { ushort u = s.at(i).unicode(); r.append(char(u & 255)); r.append(char(u >> 8)); } return r; }
static inline QByteArray decodedSnapshot(Pillow::HttpConnection *s) {
	QByteArray r; put(r, latin(s->requestUriDecoded())); put(r, latin(s->requestPathDecoded())); put(r, latin(s->requestQueryStringDecoded())); put(r, latin(s->requestFragmentDecoded()));
	const Pillow::HttpParamCollection &p = s->requestParams(); r.append(num(p.size())); for (int i = 0; i < p.size(); ++i) { put(r, latin(p.at(i).first)); put(r, latin(p.at(i).second)); }
	return r;
}
// A connection over a device, with everything that happens recorded.
struct Rec {
	MemDevice dev; Pillow::HttpConnection c; QByteArray log; int ready, completed, closed; std::function<void(Pillow::HttpConnection *)> onReady, onCompleted, onClosed; QByteArray outAtClosed;
	QVector<QByteArray> shots;
	Rec() : ready(0), completed(0), closed(0) {
		QObject::connect(&c, &Pillow::HttpConnection::requestReady, [this](Pillow::HttpConnection *s) { ++ready; QByteArray x = snapshot(s); shots.append(x); log.append('R'); put(log, x); log.append(num(dev.out.size())); if (onReady) onReady(s); });
		QObject::connect(&c, &Pillow::HttpConnection::requestCompleted, [this](Pillow::HttpConnection *s) { ++completed; log.append('C'); log.append(num(dev.out.size())); if (onCompleted) onCompleted(s); });
		QObject::connect(&c, &Pillow::HttpConnection::closed, [this](Pillow::HttpConnection *s) { ++closed; log.append('X'); outAtClosed = dev.out; if (onClosed) onClosed(s); });
		c.initialize(&dev, &dev);
	}
};
// One HTTP message read off the wire.
struct Msg {
	bool ok; const char *why; QByteArray startLine; QVector<QPair<QByteArray, QByteArray> > headers; QByteArray body; int used; bool untilClose; bool chunked; long length; bool complete;
	Msg() : ok(false), why(""), used(0), untilClose(false), chunked(false), length(-1), complete(false) {}
	QByteArray value(const char *n) const { for (int i = 0; i < headers.size(); ++i) if (ciEqual(headers.at(i).first, n)) return headers.at(i).second; return QByteArray(); }
	int count(const char *n) const { int k = 0; for (int i = 0; i < headers.size(); ++i) if (ciEqual(headers.at(i).first, n)) ++k; return k; }
	int status() const { int p = 0; while (p < startLine.size() && startLine.at(p) != ' ') ++p; ++p; if (p < 6 || startLine.size() < p + 3 || !sx_eq(startLine.constData(), "HTTP/", 5)) return -1; int r = 0; for (int i = p; i < p + 3; ++i) { char c = startLine.at(i); if (c < '0' || c > '9') return -1; r = r * 10 + (c - '0'); } if (startLine.size() > p + 3 && startLine.at(p + 3) != ' ') return -1; return r; }
};
static inline int crlfAt(const QByteArray &b, int from) { for (int i = from; i + 1 < b.size(); ++i) if (b.at(i) == '\r' && b.at(i + 1) == '\n') return i; return -1; }
static inline Msg readHead(const QByteArray &b, int from) {
	Msg m; int e = crlfAt(b, from); if (e < 0) { m.why = "no start line"; return m; } m.startLine = b.mid(from, e - from); int p = e + 2;
	for (;;) { e = crlfAt(b, p); if (e < 0) { m.why = "unterminated head"; return m; } if (e == p) { p += 2; break; }
		int colon = -1; for (int i = p; i < e; ++i) if (b.at(i) == ':') { colon = i; break; } if (colon <= p) { m.why = "bad header line"; return m; }
		int v = colon + 1; while (v < e && b.at(v) == ' ') ++v; m.headers.append(qMakePair(b.mid(p, colon - p), b.mid(v, e - v))); p = e + 2; }
	m.used = p; m.ok = true; return m;
}
static inline long decValue(const QByteArray &v) { if (v.isEmpty() || v.size() > 18) return -2; long r = 0; for (int i = 0; i < v.size(); ++i) { char c = v.at(i); if (c < '0' || c > '9') return -2; r = r * 10 + (c - '0'); } if (v.size() > 1 && v.at(0) == '0') return -3; return r; }
// A response, as a client reads it; `noBody` for answers to HEAD.
static inline Msg readResponse(const QByteArray &b, int from, bool noBody) {
	Msg m = readHead(b, from); if (!m.ok) return m; int p = m.used; m.ok = false;
	if (m.count("content-length") > 1) { m.why = "repeated length"; return m; }
	int te = m.count("transfer-encoding"); if (te > 1) { m.why = "repeated transfer-encoding"; return m; }
	m.chunked = te == 1 && ciEqual(m.value("transfer-encoding"), "chunked");
	if (m.count("content-length")) { m.length = decValue(m.value("content-length")); if (m.length < 0) { m.why = "bad length value"; return m; } }
	if (m.chunked && m.length >= 0) { m.why = "length and chunks"; return m; }
	int st = m.status(); if (noBody || st == 304 || st == 204 || (st >= 100 && st < 200)) { m.used = p; m.ok = m.complete = true; return m; }
	if (m.chunked) {
		for (;;) { int e = crlfAt(b, p); if (e < 0) { m.used = b.size(); m.ok = true; return m; } long n = 0; if (e == p) { m.why = "empty chunk size"; return m; }
			for (int i = p; i < e; ++i) { char c = lower(b.at(i)); int d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else { m.why = "bad chunk size"; return m; } n = n * 16 + d; }
			p = e + 2; if (n == 0) { if (p + 2 > b.size()) { m.used = b.size(); m.ok = true; return m; } if (b.at(p) != '\r' || b.at(p + 1) != '\n') { m.why = "bad last chunk"; return m; } m.used = p + 2; m.ok = m.complete = true; return m; }
			if (p + n + 2 > b.size()) { m.body.append(b.mid(p, int(n))); m.used = b.size(); m.ok = true; return m; } m.body.append(b.mid(p, int(n))); p += int(n); if (b.at(p) != '\r' || b.at(p + 1) != '\n') { m.why = "chunk not ended"; return m; } p += 2; }
	}
	if (m.length >= 0) { int n = int(m.length); if (b.size() - p < n) n = b.size() - p; else m.complete = true; m.body = b.mid(p, n); m.used = p + n; m.ok = true; return m; }
	m.untilClose = true; m.body = b.mid(p); m.used = b.size(); m.ok = m.complete = true; return m;
}
