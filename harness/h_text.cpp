// Texts: query parameters (C09), percent-decoding (C10), numbers (C11), header lookups (C12), composition (C13), tables and dates (C31).
#include "common.h"
#include "ByteArrayHelpers.h"
#include "HttpHelpers.h"
#include "private/ByteArray.h"
using namespace Pillow;
static const HttpHeaderCollection noHeaders;
static int hexv(char c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
static QByteArray decoded(const QByteArray &b) {
	QByteArray r; int n = b.size();
	for (int i = 0; i < n; ++i) if (b.constData()[i] == '%' && i + 2 < n && hexv(b.constData()[i + 1]) >= 0 && hexv(b.constData()[i + 2]) >= 0) { r.append(char(hexv(b.constData()[i + 1]) << 4 | hexv(b.constData()[i + 2]))); i += 2; } else r.append(b.constData()[i]);
	return r;
}
static QString decodedText(const QByteArray &b) { QByteArray d = decoded(b); return QString::fromUtf8(d.constData(), d.size()); }
typedef QVector<QPair<QString, QString> > Params;
static Params paramsOf(const QByteArray &q) {
	Params r; int i = 0, n = q.size();
	while (i < n) { int e = i; while (e < n && q.constData()[e] != '&') ++e; int k = i; while (k < e && q.constData()[k] != '=') ++k;
		r.append(qMakePair(decodedText(q.mid(i, k - i)), k < e ? decodedText(q.mid(k + 1, e - k - 1)) : QString())); i = e + 1; }
	return r;
}
// Unicode case folding, as far as it concerns names compared with ASCII ones
static ushort folded(ushort c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c == 0x17f ? 's' : c == 0x212a ? 'k' : c; }
static bool sameName(const QString &a, const QString &b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) { if (folded(a.at(i).unicode()) != folded(b.at(i).unicode())) return false; } return true; }
static QString valueOf(const Params &p, const QString &name) { for (int i = 0; i < p.size(); ++i) if (sameName(p.at(i).first, name)) return p.at(i).second; return QString(); }
static void setIn(Params &p, const QString &name, const QString &value) { for (int i = 0; i < p.size(); ++i) if (sameName(p.at(i).first, name)) { p[i] = qMakePair(name, value); return; } p.append(qMakePair(name, value)); }
static void outText(const char *l, const QString &s) { QByteArray b = latin(s); sx_out(l, b.constData(), b.size()); }
static void checkParams(HttpConnection *c, const Params &want, const char *msg) {
	const HttpParamCollection &p = c->requestParams(); bool ok = p.size() == want.size(); for (int i = 0; ok && i < p.size(); ++i) ok = same(p.at(i).first, want.at(i).first) && same(p.at(i).second, want.at(i).second);
	for (int i = 0; i < p.size(); ++i) { outText("param", p.at(i).first); outText("value", p.at(i).second); }
	sx_assert(ok, msg);
}
static QByteArray queryText(int k, int n) {
	switch (k) {
	case 0: return symBytes(n, "q");
	case 1: return "a=1&" + symBytes(n, "q") + "&B=2";
	case 2: return "n" + symBytes(n, "q") + "&n=2&N=3";
	case 3: return "x=%" + symBytes(n, "q");
	case 4: return "%41=" + symBytes(n, "q") + "&a=b&&c";
	case 5: return "k=v&" + symBytes(n, "q");
	case 6: return "caf%C3%A9=%e2%82%ac&" + symBytes(n, "q");
	case 7: { QByteArray r; for (int i = 0; i < 20; ++i) { r.append('p'); r.append(num(i)); r.append('='); r.append(num(i * 7)); r.append('&'); } return r + symBytes(n, "q"); }
	}
	return QByteArray();
}
// The parameters of a request, then lookups, then overrides.
extern "C" void text_params() {
	int k = int(sx_param(0)), n = int(sx_param(1)), op = int(sx_param(2)); QByteArray q = queryText(k, n);
	Rec a; a.dev.feed("GET /p?" + q + " HTTP/1.1\r\n\r\n"); sx_assume(a.ready == 1); HttpConnection *c = &a.c; q = QByteArray(c->requestQueryString().constData(), int(sx_concrete(c->requestQueryString().size())));
	Params want = paramsOf(q); if (want.size() > 1) sx_cover("several parameters"); if (want.size() == 0) sx_cover("no parameter");
	static const char *const fixedNames[] = { "a", "N", "x", "B", "", "p3", "n" };
	if (op == 0) {
		checkParams(c, want, "parameters are the pieces of the query in order, decoded"); checkParams(c, want, "parameters do not change when asked for again");
		for (int i = 0; i < want.size() && i < 4; ++i) { QString nm = want.at(i).first; bool ascii = true; for (int j = 0; j < nm.size(); ++j) ascii = ascii && nm.at(j).unicode() < 128; if (ascii) sx_assert(same(c->requestParamValue(nm), valueOf(want, nm)), "lookup gives the first match"); }
	} else if (op == 1) { QByteArray nm = symBytes(1, "name"); sx_assume(nm.constData()[0] > 0); QString s = QString::fromLatin1(nm.constData(), 1); sx_assert(same(c->requestParamValue(s), valueOf(want, s)), "lookup ignores case and gives the first match"); s = QString::fromLatin1("a") + s; sx_assert(same(c->requestParamValue(s), valueOf(want, s)), "lookup ignores case and gives the first match"); }
	else if (op == 2) { for (int i = 0; i < 7; ++i) { QString s = QString::fromLatin1(fixedNames[i]); sx_assert(same(c->requestParamValue(s), valueOf(want, s)), "lookup of a fixed name"); } QString z = QString::fromLatin1("zz"); sx_assert(c->requestParamValue(z).isEmpty() || !valueOf(want, z).isEmpty(), "no value for an absent name"); }
	else if (op == 3) {
		QByteArray nm = symBytes(1, "name"), nv = symBytes(1, "newValue"); sx_assume(nm.constData()[0] > 0); sx_assume(nv.constData()[0] > 0); QString s = QString::fromLatin1(nm.constData(), 1), v = QString::fromLatin1(nv.constData(), 1);
		c->setRequestParam(s, v); setIn(want, s, v); checkParams(c, want, "setting replaces the first match in place or appends, and leaves the others alone"); sx_assert(same(c->requestParamValue(s), v), "the value set is the value found");
		c->setRequestParam(s, QString()); setIn(want, s, QString()); checkParams(c, want, "setting to nothing"); sx_cover("set");
	} else {
		int i = int(sx_concrete(sx_int(0, 6, "which"))), j = int(sx_concrete(sx_int(0, 6, "which2"))); QString s = QString::fromLatin1(fixedNames[i]), t = QString::fromLatin1(fixedNames[j]), v = QString::fromLatin1("one%41"), w = QString::fromLatin1("two");
		c->setRequestParam(s, v); setIn(want, s, v); c->setRequestParam(t, w); setIn(want, t, w); checkParams(c, want, "two settings"); sx_assert(same(c->requestParamValue(s), valueOf(want, s)) && same(c->requestParamValue(t), w), "the values set are the values found"); sx_cover("set");
	}
}
// Requests without a query, and percent-decoded fields.
extern "C" void text_fields() {
	int k = int(sx_param(0)), n = int(sx_param(1)); QByteArray s = symBytes(n, "s"), u = k == 0 ? "/" + s : k == 1 ? "/a%2" + s : k == 2 ? "/?" + s : k == 3 ? "/p?%4" + s : k == 4 ? "/p#" + s : k == 5 ? "/%" + s + "%41?b%20c#d%21" : k == 6 ? "/" + s + "%C3%A9%00%u00e9" : "/%e2%82%ac?%f0%9f%98%80#" + s;
	Rec a; a.dev.feed("GET " + u + " HTTP/1.1\r\n\r\n"); sx_assume(a.ready == 1); HttpConnection *c = &a.c;
	for (int r = 0; r < 2; ++r) {
		QByteArray raw[4] = { c->requestUri(), c->requestPath(), c->requestQueryString(), c->requestFragment() }; QString d[4]; if (r == 0) { d[3] = c->requestFragmentDecoded(); d[2] = c->requestQueryStringDecoded(); d[1] = c->requestPathDecoded(); d[0] = c->requestUriDecoded(); } else { d[0] = c->requestUriDecoded(); d[1] = c->requestPathDecoded(); d[2] = c->requestQueryStringDecoded(); d[3] = c->requestFragmentDecoded(); }
		for (int i = 0; i < 4; ++i) { outText("decoded", d[i]); QByteArray rr(raw[i].constData(), int(sx_concrete(raw[i].size()))); sx_assert(same(d[i], decodedText(rr)), "decoded fields are the decoded raw fields"); }
	}
	QByteArray before = snapshot(c); c->requestParams(); sx_assert(same(before, snapshot(c)), "decoding leaves the raw fields alone"); if (c->requestParams().size() == 0) sx_cover("no parameters"); else sx_cover("parameters");
}
// Decoding in place and out of place, in a buffer of exactly the text's size.
extern "C" void text_decode() {
	int n = int(sx_param(0)), at = int(sx_param(1)), w = int(sx_param(2)); if (w > n - at) w = n - at; QByteArray t(n, 'a'); for (int i = 0; i < n; ++i) t.data()[i] = "ab%41c%2"[i % 8]; if (w > 0) { QByteArray s = symBytes(w, "s"); memcpy(t.data() + at, s.constData(), size_t(w)); }
	QByteArray want = decoded(t); char *b = static_cast<char *>(malloc(size_t(n ? n : 1))); if (n) memcpy(b, t.constData(), size_t(n)); if (n == 0) b[0] = 'q';
	int r = ByteArrayHelpers::percentDecodeInPlace(b, n); sx_out("bytes", b, sx_concrete(r)); sx_assert(r == want.size(), "length of the decoded text"); sx_assert(sx_eq(b, want.constData(), want.size()), "decoding replaces exactly the complete sequences"); sx_assert(n != 0 || b[0] == 'q', "nothing is written for an empty text");
	if (n) memcpy(b, t.constData(), size_t(n)); QString ws = QString::fromUtf8(want.constData(), want.size());
	sx_assert(same(ByteArrayHelpers::percentDecode(b, n), ws), "decoding a piece of text"); sx_assert(n == 0 || sx_eq(b, t.constData(), n), "the text decoded is not changed"); free(b);
	QByteArray c = t; sx_assert(same(ByteArrayHelpers::percentDecode(c), ws), "decoding a byte array"); QByteArray raw = QByteArray::fromRawData(t.constData(), t.size()); QByteArray keep(t.constData(), n); sx_assert(same(ByteArrayHelpers::percentDecode(raw), ws), "decoding a byte array over foreign data"); sx_assert(same(t, keep), "the byte array decoded is not changed");
	sx_assert(ByteArrayHelpers::percentDecode(static_cast<const char *>(0), 0).isEmpty(), "no text"); if (r < n) sx_cover("something decoded"); else sx_cover("nothing decoded");
	for (int i = 0; i < 256 && n == 0; ++i) { int h = ByteArrayHelpers::unhex(char(i)); sx_assert(hexv(char(i)) < 0 || h == hexv(char(i)), "value of a hexadecimal digit"); }
}
// Numbers. kind: 0 int/10, 1 qint64/10, 2 uint/10, 3 quint64/10, 4 int/16, 5 qint64/16, 6 uint/16, 7 quint64/16, 8 ushort/10
// The digits from the last to the first, by division within the type itself (for a negative number each digit is minus the remainder).
template <typename I, int Base> static void number(I v, const char *prefix) {
	static const char digits[] = "0123456789abcdef"; sx_concrete(v < 0); QByteArray b(prefix); int p = b.size(); QByteArray shared = b; ByteArrayHelpers::appendNumber<I, Base>(b, v); sx_out("number", b.constData(), b.size());
	sx_assert(same(shared, prefix) && starts(b, prefix), "the text before the number is untouched"); int n = b.size(); if (v < 0) { sx_assert(n > p && b.constData()[p] == '-', "a negative number has a minus sign"); ++p; } sx_assert(n > p && n - p <= 20, "a number has digits");
	for (int i = n - 1; i >= p; --i) { int d = int(v % Base); if (d < 0) d = -d; unsigned char want = (unsigned char)(Base <= 10 ? char(char(d) + '0') : digits[d]); sx_assert((unsigned char)b.constData()[i] == want, "every digit is exact"); v /= Base; if (i > p) sx_assert(v != 0, "no leading zeros"); }
	sx_assert(v == 0, "no digit is missing"); sx_assert(b.constData()[sx_concrete(b.size())] == 0, "terminated");
}
extern "C" void text_number() {
	int k = int(sx_param(0)); quint64 m = quint64(sx_param(1)); int bits = int(sx_param(2)); bool neg = sx_param(3) != 0; if (bits == 64) { m = quint64(sx_int(-0x7fffffffffffffffl - 1, 0x7fffffffffffffffl, "value")); } else if (bits == 32) m = quint64(sx_int(0, 0xffffffffl, "low")); else if (bits > 0) { unsigned char c; sx_bytes(&c, 1, "d"); m += c; }
	if (neg) m = 0 - m; const char *pre = sx_param(4) ? "Content-Length: " : "";
	switch (k) {
	case 0: number<int, 10>(int(uint(m)), pre); break;
	case 1: number<qint64, 10>(qint64(m), pre); break;
	case 2: number<uint, 10>(uint(m), pre); break;
	case 3: number<quint64, 10>(m, pre); break;
	case 4: number<int, 16>(int(uint(m)), pre); break;
	case 5: number<qint64, 16>(qint64(m), pre); break;
	case 6: number<uint, 16>(uint(m), pre); break;
	case 7: number<quint64, 16>(m, pre); break;
	case 8: number<ushort, 10>(ushort(m), pre); break;
	}
	sx_cover("number");
}
// Headers. A collection with names and values of which some bytes are arbitrary, looked up by an arbitrary name.
static bool ci(const QByteArray &a, const QByteArray &b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (lower(a.constData()[i]) != lower(b.constData()[i])) return false; return true; }
static HttpHeaderCollection someHeaders(int k, int n) {
	HttpHeaderCollection h;
	switch (k) {
	case 0: h << HttpHeader(QByteArray("Ab"), QByteArray("one")) << HttpHeader(symBytes(n, "h"), QByteArray("two")) << HttpHeader(QByteArray("aB"), QByteArray("three")); break;
	case 1: h << HttpHeader(symBytes(n, "h"), symBytes(1, "v")) << HttpHeader(symBytes(n, "i"), QByteArray("z")); break;
	case 2: h << HttpHeader(QByteArray("content-length"), QByteArray("1")) << HttpHeader("Content-L" + symBytes(n, "h") + "th", QByteArray("2")) << HttpHeader(QByteArray("CONTENT-LENGTH"), QByteArray("3")) << HttpHeader(QByteArray("Content-Lengt"), QByteArray("4")) << HttpHeader(QByteArray("Content-Length "), QByteArray("5")); break;
	case 3: break;
	case 4: h << HttpHeader(QByteArray(), QByteArray("e")) << HttpHeader(QByteArray(n, '\0'), QByteArray("nul")) << HttpHeader(QByteArray("[k]@`{"), QByteArray("f")) << HttpHeader("{K}`@[", "g"); break;
	}
	return h;
}
static void checkLookups(const HttpHeaderCollection &h, const QByteArray &name, const QByteArray &value) {
	QVector<QByteArray> want; bool test = false; for (int i = 0; i < h.size(); ++i) if (ci(h.at(i).first, name)) { want.append(h.at(i).second); if (ci(h.at(i).second, value)) test = true; }
	QByteArray first = want.isEmpty() ? QByteArray() : want.at(0); char *ex = static_cast<char *>(malloc(size_t(name.size() + 1))); memcpy(ex, name.constData(), size_t(name.size())); ex[name.size()] = 'x';
	sx_assert(same(h.getFieldValue(name), first), "first value by byte array"); sx_assert(same(h.getFieldValue(ex, name.size()), first), "first value by pointer and length"); sx_assert(want.isEmpty() ? h.getFieldValue(name).isEmpty() : true, "nothing for an absent name"); free(ex);
	QVector<QByteArray> got = h.getFieldValues(name); bool ok = got.size() == want.size(); for (int i = 0; ok && i < got.size(); ++i) ok = same(got.at(i), want.at(i)); sx_assert(ok, "all values in order");
	sx_assert(h.testFieldValue(name.constData(), name.size(), value.constData(), value.size()) == test, "name and value test by pointer"); sx_assert(h.testFieldValue(name, value) == test, "name and value test by byte array");
	sx_out_int("found", want.size()); sx_cover(want.isEmpty() ? "absent" : want.size() > 1 ? "found many" : "found"); if (test) sx_cover("test true");
}
extern "C" void text_headers() {
	int k = int(sx_param(0)), n = int(sx_param(1)), m = int(sx_param(2)), v = int(sx_param(3)); HttpHeaderCollection h = someHeaders(k, n);
	QByteArray name = m >= 0 ? symBytes(m, "name") : m == -1 ? QByteArray("AB") : m == -2 ? QByteArray("Content-length") : m == -3 ? "Content-" + symBytes(2, "name") + "ngth" : QByteArray("[k]@`{"); QByteArray value = v >= 0 ? symBytes(v, "value") : QByteArray("three"); checkLookups(h, name, value);
	if (m == -1) { sx_assert(same(h.getFieldValue("AB"), h.getFieldValue(QByteArray("aB"))) && same(h.getFieldValue(LowerCaseToken("ab")), h.getFieldValue(QByteArray("aB"))) && same(h.getFieldValue(Token("Ab")), h.getFieldValue(QByteArray("aB"))), "literals and tokens find what byte arrays find"); sx_assert(h.getFieldValues("aB").size() == h.getFieldValues(QByteArray("ab")).size(), "literal"); sx_assert(h.testFieldValue("aB", "THREE") == h.testFieldValue(QByteArray("ab"), QByteArray("three")) && h.testFieldValue("Ab", QByteArray("Three")) == h.testFieldValue(QByteArray("AB"), "three") && h.testFieldValue(Token("ab"), LowerCaseToken("three")) == h.testFieldValue("ab", "three"), "overloads agree"); }
	if (m == -2) { QByteArray a = h.getFieldValue(LowerCaseToken("content-length")); sx_assert(same(a, h.getFieldValue(QByteArray("cOnTent-length"))), "lower case token finds what a byte array finds"); }
}
extern "C" void text_equal() {
	int n = int(sx_param(0)), m = int(sx_param(1)); QByteArray a = symBytes(n, "a"), b = symBytes(m, "b"); bool want = ci(a, b);
	sx_assert(ByteArrayHelpers::asciiEqualsCaseInsensitive(a, b) == want, "byte arrays compared"); sx_assert(ByteArrayHelpers::asciiEqualsCaseInsensitive(a.constData(), n, b.constData(), m) == want, "texts compared"); sx_assert(ByteArrayHelpers::asciiEqualsCaseInsensitive(b, a) == want, "comparison is symmetric"); sx_cover(want ? "equal" : "different");
	static const char lit[] = "a`z{"; static const char lit2[] = "Z@[A"; QByteArray l(lit, 4), l2(lit2, 4); if (n == 4) { sx_assert(ByteArrayHelpers::asciiEqualsCaseInsensitive(a, Token(lit)) == ci(a, l), "token"); sx_assert(ByteArrayHelpers::asciiEqualsCaseInsensitive(a, LowerCaseToken(lit)) == ci(a, l), "lower case token"); sx_assert(ByteArrayHelpers::asciiEqualsCaseInsensitive(a, Token(lit2)) == ci(a, l2), "token"); sx_assert(ByteArrayHelpers::asciiEqualsCaseInsensitive(a, QLatin1Literal(lit2)) == ci(a, l2), "literal"); }
}
template <int N> static void raw(const char *pre) {
	char t[N + 1]; int p = int(strlen(pre)); memcpy(t, pre, size_t(p)); QByteArray s = symBytes(N - p, "raw"); memcpy(t + p, s.constData(), size_t(N - p)); t[N] = 'z'; const char (&lit)[N + 1] = t; HttpHeader h(lit);
	int c = 0; while (c < N && t[c] != ':') ++c; int v = c < N ? c + 1 : N; while (v < N && t[v] == ' ') ++v; sx_out("name", h.first.constData(), sx_concrete(h.first.size())); sx_out("value", h.second.constData(), sx_concrete(h.second.size()));
	sx_assert(same(h.first, QByteArray(t, c)), "the name is the text before the first colon"); sx_assert(same(h.second, QByteArray(t + v, N - v)), "the value is the text after the colon and its spaces"); sx_cover(c < N ? "colon" : "no colon");
}
extern "C" void text_raw() { int k = int(sx_param(0)); switch (k) { case 0: raw<0>(""); break; case 1: raw<1>(""); break; case 2: raw<2>(""); break; case 3: raw<3>(""); break; case 4: raw<4>(""); break; case 5: raw<5>(""); break; case 6: raw<7>("A: "); break; case 7: raw<8>("Host:"); break; case 8: raw<6>(""); break; } }
// Joining collections, themselves included.
extern "C" void text_join() {
	int k = int(sx_param(0)), n = int(sx_param(1)), m = int(sx_param(2)), reserve = int(sx_param(3)); HttpHeaderCollection a, b; for (int i = 0; i < n; ++i) a << HttpHeader("n" + num(i), "v" + num(i)); for (int i = 0; i < m; ++i) b << HttpHeader("m" + num(i), symBytes(1, "w")); if (reserve) a.reserve(n + m + 5); HttpHeaderCollection keep = a, r; HttpHeaderCollection all = a; all.detach();
	const HttpHeaderCollection *second = &b;
	if (k == 0) r = (a += b); else if (k == 1) r = a + b; else if (k == 2) r = (a << b); else if (k == 3) { r = (a += a); second = &keep; } else if (k == 4) { r = a + a; second = &keep; } else if (k == 5) { keep = HttpHeaderCollection(); for (int i = 0; i < n; ++i) keep << HttpHeader("n" + num(i), "v" + num(i)); r = (a << a); second = &keep; } else if (k == 6) { for (int i = 0; i < b.size(); ++i) a += b.at(i); r = a; } else if (k == 7 && n) { a << a.at(0); b.clear(); b << keep.at(0); r = a; } else r = a + b;
	sx_assert(r.size() == n + second->size(), "number of headers"); bool ok = true; for (int i = 0; i < n; ++i) ok = ok && same(r.at(i).first, "n" + num(i)) && same(r.at(i).second, "v" + num(i)); for (int i = 0; i < second->size(); ++i) ok = ok && same(r.at(n + i).first, second->at(i).first) && same(r.at(n + i).second, second->at(i).second); sx_assert(ok, "every header in order"); sx_cover("joined");
}
// Pieces appended to the response buffer.
extern "C" void text_append() {
	int reserve = int(sx_param(0)), fill = int(sx_param(1)), steps = int(sx_param(2)); ByteArray b; QByteArray want; if (reserve) b.reserve(reserve); QByteArray f(fill, 'f'); b.append(f); want += f; 
	for (int i = 0; i < steps; ++i) {
		int op = int(sx_concrete(sx_int(0, 8, "op"))); QByteArray s = symBytes(i % 3, "s");
		switch (op) {
		case 0: b.append(HttpHeader(QByteArray("N"), s)); want.append("N: "); want.append(s); want.append("\r\n"); break;
		case 1: { b.append(QLatin1Literal("lit")); want.append("lit"); break; }
		case 2: { b.append(Token("TOK")); want.append("TOK"); break; }
		case 3: { b.append(LowerCaseToken("lower")); want.append("lower"); break; }
		case 4: b.append(s); want.append(s); break;
		case 5: { b.append("x\r\n"); want.append("x\r\n"); break; }
		case 6: b.append(s.constData(), s.size()); want.append(s); break;
		case 7: b.append('c'); want.append('c'); break;
		case 8: b.append(QByteArray(70, 'L')); want.append(QByteArray(70, 'L')); break;
		}
	}
	QByteArray plain = b; sx_out("buffer", plain.constData(), plain.size()); sx_assert(same(plain, want), "the buffer is the concatenation of what was appended"); sx_cover("appended");
	static const char lit[] = "ab"; ByteArray c; c.append(symBytes(int(sx_param(3)), "c")); QByteArray pc = c; bool eq = same(pc, "ab"); sx_assert((c == Token(lit)) == eq && (c != Token(lit)) == !eq && (c == LowerCaseToken(lit)) == eq && (c != LowerCaseToken(lit)) == !eq && (c == QLatin1Literal(lit)) == eq && (c != QLatin1Literal(lit)) == !eq, "comparison with a literal");
}
// Status texts.
struct Status { int code; const char *reason; };
static const Status statuses[] = { { 100, "Continue" }, { 101, "Switching Protocols" }, { 200, "OK" }, { 201, "Created" }, { 202, "Accepted" }, { 203, "Non-Authoritative Information" }, { 204, "No Content" }, { 205, "Reset Content" }, { 206, "Partial Content" },
	{ 300, "Multiple Choices" }, { 301, "Moved Permanently" }, { 302, "Found" }, { 303, "See Other" }, { 304, "Not Modified" }, { 305, "Use Proxy" }, { 307, "Temporary Redirect" },
	{ 400, "Bad Request" }, { 401, "Unauthorized" }, { 403, "Forbidden" }, { 404, "Not Found" }, { 405, "Method Not Allowed" }, { 406, "Not Acceptable" }, { 407, "Proxy Authentication Required" }, { 408, "Request Timeout" }, { 409, "Conflict" }, { 410, "Gone" }, { 411, "Length Required" }, { 412, "Precondition Failed" }, { 413, "Request Entity Too Large" }, { 414, "Request-URI Too Long" }, { 415, "Unsupported Media Type" }, { 416, "Requested Range Not Satisfiable" }, { 417, "Expectation Failed" },
	{ 500, "Internal Server Error" }, { 501, "Not Implemented" }, { 502, "Bad Gateway" }, { 503, "Service Unavailable" }, { 504, "Gateway Timeout" }, { 505, "HTTP Version Not Supported" },
	{ 102, "Processing" }, { 103, "Early Hints" }, { 207, "Multi-Status" }, { 208, "Already Reported" }, { 226, "IM Used" }, { 308, "Permanent Redirect" }, { 402, "Payment Required" }, { 421, "Misdirected Request" }, { 422, "Unprocessable Entity" }, { 423, "Locked" }, { 424, "Failed Dependency" }, { 425, "Too Early" }, { 426, "Upgrade Required" }, { 428, "Precondition Required" }, { 429, "Too Many Requests" }, { 431, "Request Header Fields Too Large" }, { 451, "Unavailable For Legal Reasons" }, { 506, "Variant Also Negotiates" }, { 507, "Insufficient Storage" }, { 508, "Loop Detected" }, { 510, "Not Extended" }, { 511, "Network Authentication Required" } };
extern "C" void text_status() {
	int c = int(uint(sx_int(0, 0xffffffffl, "code"))); const char *a = HttpProtocol::StatusCodes::getStatusCodeAndMessage(c), *m = HttpProtocol::StatusCodes::getStatusMessage(c); const Status *s = 0; for (unsigned i = 0; i < sizeof(statuses) / sizeof(statuses[0]); ++i) if (statuses[i].code == c) { s = &statuses[i]; break; }
	if (!s) { sx_cover("unknown"); sx_assert(a == 0 && m == 0, "an unknown code has no reason"); return; }
	sx_cover("known"); sx_assert(a != 0 && m != 0, "a known code has a reason"); if (!a || !m) return; QByteArray want = num(s->code) + " " + s->reason; sx_assert(same(QByteArray(a), want), "a known code has its own number and reason"); sx_assert(same(QByteArray(m), s->reason), "the reason alone");
}
extern "C" void text_mime() {
	static const char *const ends[][2] = { { ".html", "text/html" }, { ".jpg", "image/jpeg" }, { ".jpeg", "image/jpeg" }, { ".png", "image/png" }, { ".gif", "image/gif" }, { ".css", "text/css" }, { ".js", "text/javascript" }, { ".xml", "text/xml" } };
	int k = int(sx_param(0)), n = int(sx_param(1)), e = int(sx_param(2)); QByteArray t; if (k == 0) t = symBytes(n, "name"); else if (k == 1) { t = "dir.html/a" + QByteArray(ends[e][0]); QByteArray s = symBytes(n, "name"); for (int i = 0; i < n; ++i) { int at = t.size() - 1 - i; if (at >= 0) t.data()[at] = s.constData()[i]; } } else if (k == 2) { t = QByteArray(ends[e][0]); int at = n; QByteArray s = symBytes(1, "name"); if (at < t.size()) t.data()[at] = s.constData()[0]; else t.append(s); } else { t = "x" + QByteArray(ends[e][0]) + symBytes(n, "name"); }
	for (int i = 0; i < t.size(); ++i) sx_assume(t.constData()[i] > 0);
	const char *want = "application/octet-stream"; for (int i = 0; i < 8; ++i) { int l = int(strlen(ends[i][0])); if (t.size() < l) continue; bool eq = true; for (int j = 0; j < l; ++j) if (lower(t.constData()[t.size() - l + j]) != ends[i][0][j]) { eq = false; break; } if (eq) want = ends[i][1]; }
	const char *got = HttpMimeHelper::getMimeTypeForFilename(QString::fromLatin1(t.constData(), t.size())); sx_out("type", got, long(strlen(got))); sx_assert(strcmp(got, want) == 0, "media type by ending"); sx_cover(want);
}
// Dates. part 0: any date at a fixed time; 1: any time on a fixed date; 2: any offset around a few moments
extern "C" void text_date() {
	int part = int(sx_param(0)), ylo = int(sx_param(1)), yhi = int(sx_param(2)); static const char *const mon[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" }; static const char *const dayn[] = { "Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun" };
	int y = 2012, m = 2, d = 29, h = 23, mi = 59, s = 58, off = 0;
	if (part == 0) { y = int(sx_int(ylo, yhi, "year")); m = int(sx_param(3)); d = int(sx_param(4)); if (d == 0) d = int(sx_int(1, 31, "day")); if (m == 0) m = int(sx_concrete(sx_int(1, 12, "month"))); } else if (part == 1) { int w = int(sx_param(1)); if (w == 0) h = int(sx_int(0, 23, "hour")); else if (w == 1) mi = int(sx_int(0, 59, "minute")); else s = int(sx_int(0, 59, "second")); if (w != 0) h = int(sx_param(2)); if (w != 1) mi = int(sx_param(2)); }
	else { static const int dates[][3] = { { 2012, 2, 28 }, { 2013, 3, 1 }, { 1999, 12, 31 }, { 2000, 1, 1 }, { 1900, 2, 28 }, { 9998, 4, 30 }, { 1000, 1, 1 }, { 1, 3, 2 } }; int i = int(sx_param(1)); y = dates[i][0]; m = dates[i][1]; d = dates[i][2]; h = int(sx_concrete(sx_int(0, 23, "hour"))); mi = 30; s = 7; off = int(sx_concrete(sx_int(-14, 14, "zone"))) * 3600 + 900; }
	int len = m == 2 ? ((y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; sx_assume(d <= len);
	QDateTime t = part == 2 ? QDateTime(QDate(y, m, d), QTime(h, mi, s), Qt::OffsetFromUTC, off) : QDateTime(QDate(y, m, d), QTime(h, mi, s), Qt::UTC); QByteArray g = HttpProtocol::Dates::getHttpDate(t); sx_out("date", g.constData(), g.size());
	// seconds since 1 January of year 0 (proleptic), in GMT
	if (part == 2) { long days = 365l * y + (y + 3) / 4 - (y + 99) / 100 + (y + 399) / 400; static const int cum[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 }; days += cum[m - 1] + (m > 2 && len && ((y % 4 == 0 && (y % 100 != 0 || y % 400 == 0))) ? 1 : 0) + d - 1; long sec = days * 86400 + h * 3600 + mi * 60 + s - off; days = sec / 86400; long r = sec % 86400; h = int(r / 3600); mi = int(r / 60 % 60); s = int(r % 60);
		y = 0; for (;;) { bool leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); if (y % 400 == 0 && days >= 146097) { y += 400; days -= 146097; continue; } if (days < (leap ? 366 : 365)) break; days -= leap ? 366 : 365; ++y; } for (m = 1;; ++m) { int l = m == 2 ? ((y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; if (days < l) break; days -= l; } d = int(days) + 1; }
	sx_assert(g.size() == 29, "a date has 29 characters"); if (g.size() != 29) return; const char *c = g.constData();
	sx_assert(c[3] == ',' && c[4] == ' ' && c[7] == ' ' && c[11] == ' ' && c[16] == ' ' && c[19] == ':' && c[22] == ':' && sx_eq(c + 25, " GMT", 4), "shape of a date");
	bool dig = true; static const int at[] = { 5, 6, 12, 13, 14, 15, 17, 18, 20, 21, 23, 24 }; for (int i = 0; i < 12; ++i) dig = dig && c[at[i]] >= '0' && c[at[i]] <= '9'; sx_assert(dig, "zero-padded digits");
	sx_assert((c[5] - '0') * 10 + (c[6] - '0') == d, "day"); sx_assert((((c[12] - '0') * 10 + (c[13] - '0')) * 10 + (c[14] - '0')) * 10 + (c[15] - '0') == y, "year"); sx_assert((c[17] - '0') * 10 + (c[18] - '0') == h, "hour"); sx_assert((c[20] - '0') * 10 + (c[21] - '0') == mi, "minute"); sx_assert((c[23] - '0') * 10 + (c[24] - '0') == s, "second"); sx_assert(sx_eq(c + 8, mon[sx_concrete(m) - 1], 3), "month");
	int mm = int(sx_concrete(m)), dow = part == 2 ? 0 : QDate(y, mm, d).dayOfWeek(); if (part == 2) { int py = y - 1; static const int cum2[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 }; int leap = (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 1 : 0; dow = 1 + (365 * py + py / 4 - py / 100 + py / 400 + cum2[mm - 1] + (mm > 2 ? leap : 0) + d - 1) % 7; } // 1 January of year 1 was a Monday
	const char *dw = dayn[sx_concrete(dow) - 1]; sx_assert(sx_eq(c, dw, 3), "day of the week"); sx_cover("date");
}
