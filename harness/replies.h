// Responses a server may send, each with what a reader must make of it (symbolic parts named ra/rb/rd).
#pragma once
#include "common.h"
#include "HttpHeader.h"
using namespace Pillow;
struct Reply { QByteArray bytes; int status; HttpHeaderCollection h; QByteArray body; bool untilClose, head, trailers, keeps; int headEnd; Reply() : status(200), untilClose(false), head(false), trailers(false), keeps(true), headEnd(0) {} };
static QByteArray digits(int n, const char *name, char lo = '0') { QByteArray r = symBytes(n, name); for (int i = 0; i < n; ++i) { char c = r.at(i); sx_assume(c >= (i ? '0' : lo) && c <= '9'); } return r; }
static QByteArray field(int n, const char *name) { static const char seps[] = "()<>@,;:\\\"/[]?={}"; return symText(n, name, seps); }
static QByteArray text(int n, const char *name) { QByteArray r = symBytes(n, name); for (int i = 0; i < n; ++i) { char c = r.at(i); sx_assume(c != '\r' && c != '\n' && c != 0); if (i == 0 || i == n - 1) sx_assume(c != ' ' && c != '\t'); } return r; }
static QByteArray line(const HttpHeader &h) { return h.first + ": " + h.second + "\r\n"; }
enum { REPLIES = 24 };
static Reply reply(int k, int tag = 0) {
	const char *a = tag ? "ra2" : "ra1", *b = tag ? "rb2" : "rb1", *d = tag ? "rd2" : "rd1"; Reply r; QByteArray start = "HTTP/1.1 200 OK\r\n", pre, tail; auto head = [&](const char *n, const QByteArray &v) { r.h << HttpHeader(n, v); };
	switch (k) {
	case 0: { QByteArray s = digits(3, a, '2'); sx_assume(s.at(0) <= '5'); sx_assume(!same(s, "204") && !same(s, "304")); start = "HTTP/1.1 " + s + " " + text(2, b) + "\r\n"; r.status = (s.at(0) - '0') * 100 + (s.at(1) - '0') * 10 + (s.at(2) - '0'); head("Content-Length", "3"); r.body = symBytes(3, d); break; }
	case 1: r.h << HttpHeader(field(2, a), text(3, b)) << HttpHeader("Content-Length", "1") << HttpHeader(field(1, d), QByteArray()); r.body = "x"; break;
	case 2: { int n = int(sx_concrete(sx_int(1, 17, a))); head("Transfer-Encoding", "chunked"); QByteArray c(n, 'c'); QByteArray m = symBytes(2, d); c[0] = m.at(0); c[n - 1] = m.at(1); r.body = c; QByteArray hex; if (n > 15) hex += '1'; hex += "0123456789abcdef"[n & 15]; r.body += "yz"; tail = hex + "\r\n" + c + "\r\n2;x=" + text(1, b) + "\r\nyz\r\n0\r\n\r\n"; break; }
	case 3: { QByteArray v = digits(1, a); start = "HTTP/1." + v + " 200 OK\r\n"; head("X", "y"); r.body = symBytes(4, d); r.untilClose = true; r.keeps = false; break; }
	case 4: { int n = int(sx_concrete(sx_int(0, 12, a))); head("Content-Length", num(n)); r.body = QByteArray(n, 'b'); if (n) r.body[n - 1] = symBytes(1, d).at(0); break; }
	case 5: { int n = int(sx_concrete(sx_int(1, 3, a))); for (int i = 0; i < n; ++i) pre += i == 1 ? "HTTP/1.1 100 Continue\r\nX-Interim: 1\r\nY: 2\r\n\r\n" : "HTTP/1.1 100 Continue\r\n\r\n"; head("Content-Length", "2"); r.body = symBytes(2, d); break; }
	case 6: start = "HTTP/1.1 204 No Content\r\n"; head("X", text(1, a)); r.status = 204; break;
	case 7: start = "HTTP/1.1 304 Not Modified\r\n"; head("ETag", text(1, a)); head("Content-Length", "5"); r.status = 304; break;
	case 8: head("Content-Length", digits(2, a, '1')); r.head = true; break;
	case 9: head("Upgrade", text(2, a)); head("Content-Length", "2"); r.body = symBytes(2, d); break;
	case 10: { QByteArray ws = symBytes(2, a); for (int i = 0; i < 2; ++i) { char c = ws.at(i); sx_assume(c == ' ' || c == '\t'); } QByteArray v = text(2, b); start += "X:" + ws + v + "\r\n"; r.h << HttpHeader("X", v) << HttpHeader("Content-Length", "1"); r.body = "q"; r.bytes = start + "Content-Length: 1\r\n\r\n" + r.body; r.headEnd = r.bytes.size() - 1; return r; }
	case 11: { QByteArray c = symBytes(3, a); for (int i = 0; i < 3; ++i) { char ch = lower(c.at(i)); sx_assume(ch == (i == 0 ? 't' : i == 1 ? 'e' : 'c')); } r.h << HttpHeader(c.left(1) + "ransfer-" + c.mid(1, 1) + "ncoding", c.mid(2, 1) + "hunKed"); r.body = "chunk"; tail = "5\r\nchunk\r\n0\r\n\r\n"; break; }
	case 12: head("Transfer-Encoding", "chunked"); head("Trailer", "T"); r.body = "abc"; tail = "3\r\nabc\r\n0\r\nT" + field(1, a) + ": " + text(1, b) + "\r\nU: v\r\n\r\n"; r.trailers = true; break;
	case 13: start = "HTTP/1.0 404 Not Found\r\n"; r.status = 404; head("Connection", "keep-alive"); head("content-LENGTH", "2"); r.body = symBytes(2, d); break;
	case 14: { QByteArray v(300, 'v'); v[150] = text(1, a).at(0); head("Long", v); head("Set-Cookie", "a=b"); head("Set-Cookie", "c=" + text(2, b)); head("Content-Length", "0"); break; }
	case 15: start = "HTTP/1.0 200 OK\r\n"; head("Content-Length", "2"); r.body = symBytes(2, d); r.keeps = false; break;
	case 16: head("Connection", QByteArray("cl") + symBytes(1, a) + "se"); { char c = r.h.at(0).second.at(2); sx_assume(lower(c) == 'o'); } head("Content-Length", "1"); r.body = "z"; r.keeps = false; break;
	case 17: start = "HTTP/1.1 200\r\n"; head("Content-Length", "1"); r.body = symBytes(1, d); break;
	case 18: start = "HTTP/1.1 500 Internal Server Error\r\n"; r.status = 500; head("Transfer-Encoding", "chunked"); r.body = symBytes(3, d); for (int i = 0; i < 3; ++i) tail += "1\r\n" + r.body.mid(i, 1) + "\r\n"; tail += "000\r\n\r\n"; break;
	case 19: head("Transfer-Encoding", "chunked"); tail = "0\r\n\r\n"; break;
	case 20: start = "HTTP/1.1 302 Found\r\n"; r.status = 302; head("Location", "/" + text(1, a)); head("Content-Length", "0"); break;
	case 21: start = "HTTP/1.1 200 OK\r\n"; head("Transfer-Encoding", "chunked"); r.head = true; break;
	case 22: start = "HTTP/1.1 304 Not Modified\r\n"; r.status = 304; head("Transfer-Encoding", "chunked"); break;
	case 23: { QByteArray c = symBytes(1, a); sx_assume(lower(c.at(0)) == 'n'); r.h << HttpHeader(QByteArray("Co") + c + "tent-length", "4"); r.body = symBytes(4, d); break; }
	}
	QByteArray hd = start; for (int i = 0; i < r.h.size(); ++i) hd += line(r.h.at(i)); hd += "\r\n"; r.headEnd = pre.size() + hd.size(); r.bytes = pre + hd + (tail.isEmpty() ? (r.head ? QByteArray() : r.body) : tail); return r;
}
