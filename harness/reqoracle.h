// The oracle's own reading of a request stream, written from the grammar the project documents (parser/common.rl):
//   Method SP URI ["#" Fragment] SP "HTTP/" digits "." digits CRLF *(name ":" *SP value CRLF) CRLF body
#pragma once
#include "common.h"
struct Req {
	enum St { Incomplete, Bad400, Bad413, Good } st; int used, head; QByteArray method, uri, path, query, fragment, version, body; QVector<QPair<QByteArray, QByteArray> > headers; bool gray;
	Req() : st(Incomplete), used(0), head(0), gray(false) {}
	QByteArray value(const char *n, bool last = false) const { QByteArray r; for (int i = 0; i < headers.size(); ++i) if (ciEqual(headers.at(i).first, n)) { r = headers.at(i).second; if (!last) break; } return r; }
	int count(const char *n) const { int k = 0; for (int i = 0; i < headers.size(); ++i) if (ciEqual(headers.at(i).first, n)) ++k; return k; }
	QByteArray snapshot() const { QByteArray r; put(r, method); put(r, uri); put(r, path); put(r, query); put(r, fragment); put(r, version); r.append(num(headers.size())); for (int i = 0; i < headers.size(); ++i) { put(r, headers.at(i).first); put(r, headers.at(i).second); } put(r, body); return r; }
	bool keepsAlive() const { QByteArray c = value("connection"); if (version == "HTTP/1.1") return !ciEqual(c, "close"); return ciEqual(c, "keep-alive"); }
};
enum { kMethod = 1, kUri = 2, kPath = 4, kHex = 8, kToken = 16, kScheme = 32 };
// method: upper, digit, $-_. ; uri: anything but controls, space, hash and percent ; path: the same without ? ; token: RFC 2616 ; scheme: alnum + - .
static const unsigned char classTable[256] = {
	0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
	0,22,6,16,23,16,22,22,6,6,22,54,6,55,55,6,63,63,63,63,63,63,63,63,63,63,6,6,6,6,6,2,
	6,63,63,63,63,63,63,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,6,6,6,22,23,
	22,62,62,62,62,62,62,54,54,54,54,54,54,54,54,54,54,54,54,54,54,54,54,54,54,54,54,6,22,6,22,0,
	6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
	6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
	6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
	6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6 };
#define IS(c, k) ((classTable[(unsigned char)(c)] & (k)) != 0)
// a run of `cls` characters and escapes; stops at the first other byte. -1: malformed escape, -2: the text ends inside an escape
static inline int runOf(const char *p, int i, int n, int cls) {
	while (i < n) { if (IS(p[i], cls)) { ++i; continue; } if (p[i] != '%') break;
		int j = i + 1; if (j < n && sx_concrete(p[j] == 'u')) ++j; for (int k = 0; k < 2; ++k, ++j) { if (j >= n) return -2; if (!IS(p[j], kHex)) return -1; } i = j; }
	return i;
}
static inline Req readRequest_(const QByteArray &b, int from) {
	Req r; const char *p = b.constData() + from; int n = b.size() - from, i = 0;
#define NEED if (i >= n) { r.st = Req::Incomplete; return r; }
#define MUST(cond) { NEED if (!(cond)) { r.st = Req::Bad400; return r; } }
	while (i < n && i < 20 && IS(p[i], kMethod)) ++i; MUST(i > 0 && p[i] == ' ') r.method = b.mid(from, i); ++i;
	NEED int u = i;
	if (p[i] == '*') ++i;
	else if (p[i] == '/') {
		int e = runOf(p, i, n, kPath); if (e == -1) { r.st = Req::Bad400; return r; } if (e == -2) return r; i = e; NEED r.path = b.mid(from + u, i - u);
		if (p[i] == '?') { int q = i + 1; e = runOf(p, q, n, kUri); if (e == -1) { r.st = Req::Bad400; return r; } if (e == -2) return r; i = e; NEED r.query = b.mid(from + q, i - q); }
	} else {
		while (i < n && IS(p[i], kScheme)) ++i; MUST(p[i] == ':') int e = runOf(p, i + 1, n, kUri); if (e == -1) { r.st = Req::Bad400; return r; } if (e == -2) return r; i = e; NEED
	}
	r.uri = b.mid(from + u, i - u);
	NEED if (p[i] == '#') { int f = i + 1, e = runOf(p, f, n, kUri); if (e == -1) { r.st = Req::Bad400; return r; } if (e == -2) return r; i = e; NEED r.fragment = b.mid(from + f, i - f); }
	MUST(p[i] == ' ') ++i; int v = i; for (const char *h = "HTTP/"; *h; ++h) { MUST(p[i] == *h) ++i; }
	MUST(p[i] >= '0' && p[i] <= '9') while (i < n && p[i] >= '0' && p[i] <= '9') ++i; MUST(p[i] == '.') ++i; MUST(p[i] >= '0' && p[i] <= '9') while (i < n && p[i] >= '0' && p[i] <= '9') ++i;
	MUST(p[i] == '\r') r.version = b.mid(from + v, i - v); ++i; MUST(p[i] == '\n') ++i;
	for (;;) {
		NEED if (p[i] == '\r') { ++i; MUST(p[i] == '\n') ++i; break; }
		int k = i; while (i < n && IS(p[i], kToken)) ++i; MUST(i > k && p[i] == ':') int ke = i; ++i; while (i < n && p[i] == ' ') ++i; int w = i; while (i < n && p[i] != '\r') ++i; NEED
		r.headers.append(qMakePair(b.mid(from + k, ke - k), b.mid(from + w, i - w))); ++i; MUST(p[i] == '\n') ++i;
	}
	r.head = i; if (i > 32768) { r.st = Req::Bad400; return r; }
	long len = 0;
	if (r.count("content-length")) {
		if (r.count("content-length") > 1) r.gray = true; // which one counts is not promised
		QByteArray c = r.value("content-length", true); int s = 0; bool neg = c.size() > 0 && c.at(0) == '-'; neg = sx_concrete(neg); if (neg) s = 1; bool digits = c.size() > s;
		for (int x = 0; x < c.size(); ++x) { char ch = c.at(x); if (ch == '+' || ch == '\0' || ch == '\t' || ch == '\n' || ch == '\v' || ch == '\f' || (ch == ' ')) r.gray = true; } // sign, space and NUL: leniency is not promised either way
		for (int x = s; x < c.size(); ++x) { char ch = c.at(x); if (ch < '0' || ch > '9') { digits = false; break; } len = len * 10 + (ch - '0'); if (len > 4000000000000000l) break; }
		if (neg && digits && (len == 0 || len > 2147483648l)) r.gray = true;
		if (neg && digits) { r.st = Req::Bad400; return r; } if (!digits || len > 134217728l) { r.st = Req::Bad413; return r; }
	}
	if (n - i < len) return r; r.body = b.mid(from + i, int(len)); r.used = i + int(len); r.st = Req::Good; return r;
#undef NEED
#undef MUST
}
// with the limit on the head: a head still unfinished beyond it is refused too
static inline Req readRequest(const QByteArray &b, int from) { Req r = readRequest_(b, from); if (r.st == Req::Incomplete && r.head == 0 && b.size() - from > 32768) r.st = Req::Bad400; return r; }
