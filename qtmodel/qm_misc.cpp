// QUrl, QRegExp, QCryptographicHash, QDate/QTime/QDateTime, QVariant.
#include "qm.h"
#include <QtCore/QUrl>
#include <QtCore/QRegExp>
#include <QtCore/QCryptographicHash>
#include <QtCore/QDateTime>
#include <QtCore/QVariant>
#include <QtCore/QStringList>
#include <QtCore/QVector>

// ---------------------------------------------------------------- QUrl: components kept in their fully encoded ASCII form
class QUrlPrivate { public: int ref; bool hasScheme, hasAuth, hasQuery, hasFragment, bad; int port; QByteArray scheme, host, path, query, fragment; QUrlPrivate() : ref(1), hasScheme(0), hasAuth(0), hasQuery(0), hasFragment(0), bad(0), port(-1) {} };
typedef QUrlPrivate UP;
static inline bool isAlnum(uint c) { return ((c - 'a') < 26u) | ((c - 'A') < 26u) | ((c - '0') < 10u); }
static inline bool isHexC(uint c) { return ((c - '0') < 10u) | ((c - 'a') < 6u) | ((c - 'A') < 6u); }
static inline uint hexV(uint c) { return (c & 15u) + (c >> 6) * 9u; }
static inline char hexD(uint v) { return char(v + '0' + (v > 9 ? 7 : 0)); }
static inline bool unres(uint c) { return isAlnum(c) | (c == '-') | (c == '.') | (c == '_') | (c == '~'); }
static inline bool lit(uint c) { return unres(c) | (c == '!') | (c == '$') | ((c - '&') < 7u) /* &'()*+, */ | (c == ';') | (c == '=') | (c == ':') | (c == '@') | (c == '/') | (c == '[') | (c == ']'); }
static void put3(QByteArray &o, uint v) { o.append('%'); o.append(hexD(v >> 4)); o.append(hexD(v & 15)); }
enum Part { PPath, PQuery, PFragment };
// Canonical encoded form of one component. `decoded`: the text is literal, '%' has no special meaning.
static QByteArray canon(const QChar *p, int n, Part part, bool decoded) {
	QByteArray o; o.reserve(3 * n + 1);
	for (int i = 0; i < n; ++i) {
		uint c = p[i].unicode(); if (c >= 0x80) sx_unmodelled("non-ASCII URL text");
		bool plain = lit(c) | ((c == '?') & (part != PPath)); if (plain) { o.append(char(c)); continue; }
		if (c == '%' && !decoded) {
			if (!(i + 2 < n && (isHexC(p[i+1].unicode()) & isHexC(p[i+2].unicode())))) sx_unmodelled("invalid percent sequence in a URL");
			uint v = hexV(p[i+1].unicode()) * 16 + hexV(p[i+2].unicode()); i += 2; if (unres(v)) o.append(char(v)); else put3(o, v); continue;
		}
		put3(o, c);
	}
	return o;
}
static QByteArray canon(const QString &s, Part part, bool decoded) { return canon(s.constData(), s.size(), part, decoded); }
static UP *fresh(UP *&d) { if (!d) { d = new UP; return d; } if (d->ref > 1) { UP *n = new UP(*d); n->ref = 1; --d->ref; d = n; } return d; }
static void drop(UP *d) { if (d && --d->ref == 0) delete d; }
static bool isSchemeText(const QChar *p, int n) { if (n == 0) return false; for (int i = 0; i < n; ++i) { uint c = p[i].unicode(); bool ok = ((c - 'a') < 26u) | ((c - 'A') < 26u) | (bool(i) & (((c - '0') < 10u) | (c == '+') | (c == '-') | (c == '.'))); if (!ok) return false; } return true; }
static QByteArray lowered(const QChar *p, int n) { QByteArray r; for (int i = 0; i < n; ++i) { uint c = p[i].unicode(); r.append(char(c + 32 * uint((c - 'A') < 26u))); } return r; }
static void setHostText(UP *d, const QChar *p, int n) { for (int i = 0; i < n; ++i) { uint c = p[i].unicode(); if (!(isAlnum(c) | (c == '-') | (c == '.'))) sx_unmodelled("URL host character"); } d->host = lowered(p, n); }
static UP *parseUrl(const QString &s) {
	UP *d = new UP; const QChar *p = s.constData(); int n = s.size(), i = 0, colon = -1, q = -1, h = -1;
	if (n == 0) { delete d; return 0; }
	for (; i < n; ++i) { uint c = p[i].unicode(); if (c == '#') { h = i; break; } if (c == '?') { if (q < 0) q = i; continue; } if (c == ':') { if (colon < 0 && q < 0) colon = i; } }
	int start = 0; if (colon >= 0 && isSchemeText(p, colon)) { d->hasScheme = true; d->scheme = lowered(p, colon); start = colon + 1; }
	int end = n; if (h >= 0) end = h; int pend = q >= 0 ? q : end; int ps = start;
	if (pend - start >= 2 && p[start].unicode() == '/' && p[start+1].unicode() == '/') {
		d->hasAuth = true; int a = start + 2, e = a; while (e < pend && p[e].unicode() != '/') ++e; ps = e;
		int pc = -1; for (int k = a; k < e; ++k) { uint c = p[k].unicode(); if (c == '@' || c == '[') sx_unmodelled("URL with user info or IPv6 host"); if (c == ':') pc = k; }
		int he = pc >= 0 ? pc : e; setHostText(d, p + a, he - a);
		if (pc >= 0 && pc + 1 < e) { int v = 0; for (int k = pc + 1; k < e; ++k) { uint c = p[k].unicode(); if (c - '0' >= 10u) { d->bad = true; break; } v = v * 10 + int(c - '0'); if (v > 65535) { d->bad = true; break; } } d->port = v; }
		if (!d->host.size() && d->port >= 0) d->bad = true;
	}
	d->path = canon(p + ps, pend - ps, PPath, false);
	if (q >= 0) { d->hasQuery = true; d->query = canon(p + q + 1, end - q - 1, PQuery, false); }
	if (h >= 0) { d->hasFragment = true; d->fragment = canon(p + h + 1, n - h - 1, PFragment, false); }
	if (d->bad) { UP *b = new UP; b->bad = true; delete d; return b; }
	return d;
}
static QString asText(const QByteArray &enc, bool has, QUrl::ComponentFormattingOptions o) {
	if (!has && enc.isEmpty()) return QString(); bool dec = (o & QUrl::FullyDecoded) == QUrl::FullyDecoded, full = !dec && (o & QUrl::FullyEncoded) == QUrl::FullyEncoded;
	if (!full) { for (int i = 0; i < enc.size(); ++i) if (enc.at(i) == '%') { if (!dec) sx_unmodelled("pretty-decoded URL component with escapes"); QByteArray r; for (int k = 0; k < enc.size(); ++k) { if (enc.at(k) == '%') { uint v = hexV(uchar(enc.at(k+1))) * 16 + hexV(uchar(enc.at(k+2))); if (v >= 0x80) sx_unmodelled("decoded non-ASCII URL component"); r.append(char(v)); k += 2; } else r.append(enc.at(k)); } return QString::fromLatin1(r); } }
	return enc.isEmpty() ? QString("") : QString::fromLatin1(enc);
}
QUrl::QUrl() : d(0) {}
QUrl::QUrl(const QUrl &o) Q_DECL_NOTHROW : d(o.d) { if (d) ++d->ref; }
QUrl::QUrl(const QString &u, ParsingMode) : d(parseUrl(u)) {}
QUrl::~QUrl() { drop(d); }
QUrl &QUrl::operator=(const QUrl &o) Q_DECL_NOTHROW { if (o.d) ++o.d->ref; drop(d); d = o.d; return *this; }
QUrl &QUrl::operator=(const QString &u) { drop(d); d = parseUrl(u); return *this; }
void QUrl::setUrl(const QString &u, ParsingMode) { drop(d); d = parseUrl(u); }
void QUrl::clear() { drop(d); d = 0; }
void QUrl::detach() { fresh(d); }
QUrl QUrl::fromEncoded(const QByteArray &u, ParsingMode) { QUrl r; for (int i = 0; i < u.size(); ++i) if (uchar(u.at(i)) >= 0x80) sx_unmodelled("non-ASCII URL text"); r.d = parseUrl(QString::fromLatin1(u)); return r; }
bool QUrl::isEmpty() const { return !d || (!d->hasScheme && !d->hasAuth && d->path.isEmpty() && !d->hasQuery && !d->hasFragment); }
static bool invalid(const UP *d) { return d->bad || (d->hasAuth && !d->path.isEmpty() && d->path.at(0) != '/'); }
bool QUrl::isValid() const { return !isEmpty() && !invalid(d); }
bool QUrl::isRelative() const { return !d || !d->hasScheme; }
bool QUrl::operator==(const QUrl &o) const { if (!d || !o.d) return isEmpty() && o.isEmpty(); return d->hasScheme == o.d->hasScheme && d->scheme == o.d->scheme && d->hasAuth == o.d->hasAuth && d->host == o.d->host && d->port == o.d->port && d->path == o.d->path && d->hasQuery == o.d->hasQuery && d->query == o.d->query && d->hasFragment == o.d->hasFragment && d->fragment == o.d->fragment; }
bool QUrl::operator!=(const QUrl &o) const { return !(*this == o); }
QString QUrl::scheme() const { return d && d->hasScheme ? QString::fromLatin1(d->scheme) : QString(); }
QString QUrl::host(ComponentFormattingOptions) const { return d && d->hasAuth ? (d->host.isEmpty() ? QString("") : QString::fromLatin1(d->host)) : QString(); }
int QUrl::port(int def) const { return d && d->port >= 0 ? d->port : def; }
QString QUrl::authority(ComponentFormattingOptions) const { if (!d || !d->hasAuth) return QString(); QByteArray a = d->host; if (d->port >= 0) { a.append(':'); a.append(QByteArray::number(d->port)); } return a.isEmpty() ? QString("") : QString::fromLatin1(a); }
QString QUrl::userInfo(ComponentFormattingOptions) const { return QString(); }
QString QUrl::userName(ComponentFormattingOptions) const { return QString(); }
QString QUrl::password(ComponentFormattingOptions) const { return QString(); }
QString QUrl::path(ComponentFormattingOptions o) const { return d ? asText(d->path, false, o) : QString(); }
bool QUrl::hasQuery() const { return d && d->hasQuery; }
QString QUrl::query(ComponentFormattingOptions o) const { return d && d->hasQuery ? asText(d->query, true, o) : QString(); }
bool QUrl::hasFragment() const { return d && d->hasFragment; }
QString QUrl::fragment(ComponentFormattingOptions o) const { return d && d->hasFragment ? asText(d->fragment, true, o) : QString(); }
void QUrl::setScheme(const QString &s) { fresh(d); d->hasScheme = !s.isEmpty(); d->scheme = lowered(s.constData(), s.size()); }
void QUrl::setHost(const QString &s, ParsingMode) { fresh(d); d->hasAuth = !s.isNull(); setHostText(d, s.constData(), s.size()); }
void QUrl::setPort(int p) { fresh(d); if (p < -1 || p > 65535) { p = -1; d->bad = true; } d->port = p; if (p != -1) d->hasAuth = true; }
void QUrl::setPath(const QString &s, ParsingMode m) { fresh(d); d->path = canon(s, PPath, m == DecodedMode); }
void QUrl::setQuery(const QString &s, ParsingMode m) { fresh(d); d->hasQuery = !s.isNull(); d->query = canon(s, PQuery, m == DecodedMode); }
void QUrl::setFragment(const QString &s, ParsingMode m) { fresh(d); d->hasFragment = !s.isNull(); d->fragment = canon(s, PFragment, m == DecodedMode); }
static QByteArray compose(const UP *d, QUrl::FormattingOptions o) {
	QByteArray r; if (!d || invalid(d)) return r; if (d->hasScheme && !(o & QUrl::RemoveScheme)) { r.append(d->scheme); r.append(':'); }
	if (d->hasAuth) { r.append("//"); r.append(d->host); if (d->port >= 0 && !(o & QUrl::RemovePort)) { r.append(':'); r.append(QByteArray::number(d->port)); } }
	r.append(d->path); if (d->hasQuery && !(o & QUrl::RemoveQuery)) { r.append('?'); r.append(d->query); } if (d->hasFragment && !(o & QUrl::RemoveFragment)) { r.append('#'); r.append(d->fragment); } return r;
}
QByteArray QUrl::toEncoded(FormattingOptions o) const { return compose(d, o); }
QString QUrl::toString(FormattingOptions o) const { QByteArray r = compose(d, o); if ((uint(o) & uint(FullyEncoded)) != uint(FullyEncoded)) for (int i = 0; i < r.size(); ++i) if (r.at(i) == '%') sx_unmodelled("pretty URL with escapes"); return QString::fromLatin1(r); }
QString QUrl::url(FormattingOptions o) const { return toString(o); }
static QByteArray removeDots(const QByteArray &in) {
	QByteArray out; int i = 0, n = in.size(); // RFC 3986 5.2.4 over segments
	if (n && in.at(0) != '/') { while (true) { if (n - i >= 3 && in.at(i) == '.' && in.at(i+1) == '.' && in.at(i+2) == '/') i += 3; else if (n - i >= 2 && in.at(i) == '.' && in.at(i+1) == '/') i += 2; else break; } if ((n - i == 1 && in.at(i) == '.') || (n - i == 2 && in.at(i) == '.' && in.at(i+1) == '.')) return out; if (i < n && in.at(i) != '/') while (i < n && in.at(i) != '/') out.append(in.at(i++)); }
	while (i < n) { int e = i + 1; while (e < n && in.at(e) != '/') ++e; int len = e - i - 1; bool last = e >= n;
		if (len == 1 && in.at(i+1) == '.') { if (last) out.append('/'); }
		else if (len == 2 && in.at(i+1) == '.' && in.at(i+2) == '.') { int k = out.size(); while (k > 0 && out.at(k-1) != '/') --k; out.truncate(k > 0 ? k - 1 : 0); if (last) out.append('/'); }
		else for (int k = i; k < e; ++k) out.append(in.at(k));
		i = e; }
	return out;
}
QUrl QUrl::resolved(const QUrl &r) const {
	if (!d) return r; if (!r.d) return *this; QUrl t;
	if (r.d->hasScheme) { t = r; fresh(t.d); }
	else {
		if (r.d->hasAuth) { t = r; fresh(t.d); }
		else { t.d = new UP; t.d->hasAuth = d->hasAuth; t.d->host = d->host; t.d->port = d->port;
			if (r.d->path.isEmpty()) { t.d->path = d->path; if (r.d->hasQuery) { t.d->query = r.d->query; t.d->hasQuery = true; } else { t.d->query = d->query; t.d->hasQuery = d->hasQuery; } }
			else { if (r.d->path.at(0) == '/') t.d->path = r.d->path; else { if (d->hasAuth && d->path.isEmpty()) { t.d->path = "/"; t.d->path.append(r.d->path); } else { int k = d->path.lastIndexOf('/'); t.d->path = k >= 0 ? d->path.left(k + 1) : QByteArray(); t.d->path.append(r.d->path); } } t.d->query = r.d->query; t.d->hasQuery = r.d->hasQuery; } }
		t.d->scheme = d->scheme; t.d->hasScheme = d->hasScheme;
	}
	t.d->fragment = r.d->fragment; t.d->hasFragment = r.d->hasFragment; t.d->path = removeDots(t.d->path); return t;
}
QString QUrl::fromEncodedComponent_helper(const QByteArray &ba) { if (ba.isNull()) return QString(); QByteArray o; for (int i = 0; i < ba.size(); ++i) { uchar c = ba.at(i); if (c >= 0x80) put3(o, c); else o.append(char(c)); } return o.isEmpty() ? QString("") : QString::fromLatin1(o); }
QString QUrl::fromPercentEncoding(const QByteArray &in) { QByteArray b = QByteArray::fromPercentEncoding(in); return QString::fromUtf8(b); }
uint qHash(const QUrl &u, uint seed) Q_DECL_NOTHROW { return seed; }

// ---------------------------------------------------------------- QRegExp: sequences of literals, classes, groups, greedy quantifiers
struct RxItem { int kind; uint lo[8], hi[8]; int nr; bool neg; char q; int grp; };
enum { RxSet, RxAny, RxOpen, RxClose, RxBol, RxEol };
struct QRegExpPrivate { int ref; RxItem *it; int n, ngrp; QString pattern, text; int cs[16], ce[16]; int matched; QRegExpPrivate() : ref(1), it(0), n(0), ngrp(0), matched(-1) {} };
static void addR(RxItem &x, uint a, uint b) { if (x.nr >= 8) sx_unmodelled("regexp class too large"); x.lo[x.nr] = a; x.hi[x.nr] = b; ++x.nr; }
static bool rxEsc(RxItem &x, uint c) { switch (c) { case 'w': addR(x,'a','z'); addR(x,'A','Z'); addR(x,'0','9'); addR(x,'_','_'); return true; case 'd': addR(x,'0','9'); return true; case 's': addR(x,9,13); addR(x,' ',' '); return true; case 'W': case 'D': case 'S': case 'b': case 'B': sx_unmodelled("regexp escape"); return true; case 'n': addR(x,10,10); return true; case 'r': addR(x,13,13); return true; case 't': addR(x,9,9); return true; } if (((c - '0') < 10u) | isAlnum(c)) sx_unmodelled("regexp escape"); addR(x, c, c); return false; }
static void rxCompile(QRegExpPrivate *d) {
	const QString &s = d->pattern; int n = s.size(); d->it = static_cast<RxItem *>(malloc(sizeof(RxItem) * (n + 1))); int open[16], depth = 0;
	for (int i = 0; i < n; ++i) {
		uint c = uint(sx_concrete(long(s.at(i).unicode()))); RxItem &x = d->it[d->n]; memset((void*)&x, 0, sizeof(x)); x.q = 0;
		switch (c) {
		case '^': x.kind = RxBol; ++d->n; continue;
		case '$': x.kind = RxEol; ++d->n; continue;
		case '(': if (i + 1 < n && s.at(i+1) == '?') sx_unmodelled("regexp group kind"); x.kind = RxOpen; x.grp = ++d->ngrp; if (d->ngrp >= 16) sx_unmodelled("regexp groups"); open[depth++] = x.grp; ++d->n; continue;
		case ')': x.kind = RxClose; if (!depth) sx_unmodelled("regexp parenthesis"); x.grp = open[--depth]; ++d->n; if (i + 1 < n && (s.at(i+1) == '*' || s.at(i+1) == '+' || s.at(i+1) == '?' || s.at(i+1) == '{')) sx_unmodelled("quantified group"); continue;
		case '|': sx_unmodelled("regexp alternation"); continue;
		case '{': case '}': sx_unmodelled("regexp repetition"); continue;
		case '.': x.kind = RxAny; break;
		case '\\': if (i + 1 >= n) sx_unmodelled("regexp escape"); x.kind = RxSet; rxEsc(x, uint(sx_concrete(long(s.at(++i).unicode())))); break;
		case '[': { x.kind = RxSet; ++i; if (i < n && s.at(i) == '^') { x.neg = true; ++i; } bool first = true; for (;; ++i) { if (i >= n) sx_unmodelled("regexp class"); uint a = s.at(i).unicode(); if (a == ']' && !first) break; first = false; if (a == '\\') { rxEsc(x, s.at(++i).unicode()); continue; } if (i + 2 < n && s.at(i+1) == '-' && s.at(i+2) != ']') { addR(x, a, s.at(i+2).unicode()); i += 2; } else addR(x, a, a); } break; }
		case '*': case '+': case '?': sx_unmodelled("dangling quantifier"); continue;
		default: x.kind = RxSet; addR(x, c, c);
		}
		if (i + 1 < n) { uint q = uint(sx_concrete(long(s.at(i+1).unicode()))); if (q == '*' || q == '+' || q == '?') { x.q = char(q); ++i; } else if (q == '{') sx_unmodelled("regexp repetition"); }
		++d->n;
	}
}
static bool rxIn(const RxItem &x, uint c) { if (c >= 0x80) sx_unmodelled("non-ASCII text against a regexp"); if (x.kind == RxAny) return true; bool r = false; for (int k = 0; k < x.nr; ++k) r = r | ((c - x.lo[k]) <= (x.hi[k] - x.lo[k])); return r != x.neg; }
static int rxTry(QRegExpPrivate *d, const QChar *t, int n, int k, int pos) {
	for (; k < d->n; ++k) {
		const RxItem &x = d->it[k];
		switch (x.kind) {
		case RxBol: if (pos != 0) return -1; continue;
		case RxEol: if (pos != n) return -1; continue;
		case RxOpen: { int o = d->cs[x.grp]; d->cs[x.grp] = pos; int r = rxTry(d, t, n, k + 1, pos); if (r < 0) d->cs[x.grp] = o; return r; }
		case RxClose: { int o = d->ce[x.grp]; d->ce[x.grp] = pos; int r = rxTry(d, t, n, k + 1, pos); if (r < 0) d->ce[x.grp] = o; return r; }
		}
		if (!x.q) { if (pos >= n || !rxIn(x, t[pos].unicode())) return -1; ++pos; continue; }
		int lo = x.q == '+' ? 1 : 0, cnt = 0, lim = x.q == '?' ? 1 : n; while (cnt < lim && pos + cnt < n && rxIn(x, t[pos + cnt].unicode())) ++cnt;
		for (; cnt >= lo; --cnt) { int r = rxTry(d, t, n, k + 1, pos + cnt); if (r >= 0) return r; }
		return -1;
	}
	return pos;
}
QRegExp::QRegExp() : priv(new QRegExpPrivate) {}
QRegExp::QRegExp(const QString &p, Qt::CaseSensitivity cs, PatternSyntax syn) : priv(new QRegExpPrivate) { if (cs != Qt::CaseSensitive || syn != RegExp) sx_unmodelled("regexp mode"); priv->pattern = p; rxCompile(priv); }
QRegExp::QRegExp(const QRegExp &o) : priv(o.priv) { ++priv->ref; }
QRegExp::~QRegExp() { if (--priv->ref == 0) { free((void*)priv->it); delete priv; } }
QRegExp &QRegExp::operator=(const QRegExp &o) { ++o.priv->ref; if (--priv->ref == 0) { free((void*)priv->it); delete priv; } priv = o.priv; return *this; }
int QRegExp::indexIn(const QString &s, int from, CaretMode) const {
	int n = s.size(); if (from < 0) from += n; priv->text = s; for (int i = from; i <= n && i >= 0; ++i) { for (int g = 0; g < 16; ++g) priv->cs[g] = priv->ce[g] = -1; int e = rxTry(priv, s.constData(), n, 0, i); if (e >= 0) { priv->cs[0] = i; priv->ce[0] = e; priv->matched = e - i; return i; } if (priv->n && priv->it[0].kind == RxBol) break; }
	priv->matched = -1; priv->cs[0] = -1; return -1;
}
bool QRegExp::exactMatch(const QString &s) const { sx_unmodelled("QRegExp::exactMatch"); return false; }
int QRegExp::matchedLength() const { return priv->matched; }
int QRegExp::captureCount() const { return priv->ngrp; }
int QRegExp::pos(int k) const { return k > priv->ngrp || priv->matched < 0 ? -1 : priv->cs[k]; }
QString QRegExp::cap(int k) const { if (k < 0 || k > priv->ngrp || priv->matched < 0 || priv->cs[k] < 0) return QString(); return priv->text.mid(priv->cs[k], priv->ce[k] - priv->cs[k]); }
QString QRegExp::cap(int k) { return const_cast<const QRegExp*>(this)->cap(k); }
int QRegExp::pos(int k) { return const_cast<const QRegExp*>(this)->pos(k); }
QStringList QRegExp::capturedTexts() const { QStringList l; for (int i = 0; i <= priv->ngrp; ++i) l << cap(i); return l; }
QStringList QRegExp::capturedTexts() { return const_cast<const QRegExp*>(this)->capturedTexts(); }
QString QRegExp::pattern() const { return priv->pattern; }
bool QRegExp::isEmpty() const { return priv->pattern.isEmpty(); }
bool QRegExp::isValid() const { return true; }
QString QRegExp::escape(const QString &s) { QString o; for (int i = 0; i < s.size(); ++i) { uint c = s.at(i).unicode(); if (c && strchr("$()*+.?[\\]^{|}", int(c))) o.append(QLatin1Char('\\')); o.append(s.at(i)); } return o; }
QString &QString::replace(const QRegExp &rx, const QString &after) {
	for (int i = 0; i + 1 < after.size(); ++i) if (after.at(i) == '\\' && after.at(i+1).unicode() - '0' < 10u) sx_unmodelled("back-reference in a replacement");
	QString out; int last = 0, pos = 0, n = size(); while (pos <= n) { int p = rx.indexIn(*this, pos); if (p < 0) break; int len = rx.matchedLength(); out.append(mid(last, p - last)); out.append(after); last = p + len; pos = len ? last : last + 1; if (!len) sx_unmodelled("empty regexp match in replace"); }
	if (last == 0 && out.isEmpty()) return *this; out.append(mid(last)); *this = out; return *this;
}
int QString::indexOf(const QRegExp &rx, int from) const { return rx.indexIn(*this, from); }

// ---------------------------------------------------------------- QCryptographicHash: an injective stand-in (16 bytes: length and content)
class QCryptographicHashPrivate { public: QByteArray data; };
QCryptographicHash::QCryptographicHash(Algorithm m) : d(new QCryptographicHashPrivate) { if (m != Md5) sx_unmodelled("hash algorithm"); }
QCryptographicHash::~QCryptographicHash() { delete d; }
void QCryptographicHash::reset() { d->data.clear(); }
void QCryptographicHash::addData(const char *p, int n) { d->data.append(p, n); }
void QCryptographicHash::addData(const QByteArray &b) { d->data.append(b); }
static QByteArray hashOf(const QByteArray &b) { if (b.size() > 15) { QByteArray r(16, '\0'); char *d = r.data(); const char *s = b.constData(); int n = b.size(); d[0] = char(255); for (int i = 0; i < 4; ++i) d[1 + i] = char(n >> (8 * i)); for (int i = 0; i < n; ++i) d[5 + i % 11] = char(uchar(d[5 + i % 11]) * 3 + uchar(s[i])); return r; } QByteArray r; r.append(char(b.size())); r.append(b); while (r.size() < 16) r.append('\0'); return r; }
QByteArray QCryptographicHash::result() const { return hashOf(d->data); }
QByteArray QCryptographicHash::hash(const QByteArray &b, Algorithm m) { if (m != Md5) sx_unmodelled("hash algorithm"); return hashOf(b); }

// ---------------------------------------------------------------- dates: fields packed into the value
QDate::QDate(int y, int m, int d) : jd(qint64(y) << 16 | m << 8 | d) {}
int QDate::year() const { return int(jd >> 16); }
int QDate::month() const { return int(jd >> 8) & 0xff; }
int QDate::day() const { return int(jd) & 0xff; }
int QDate::dayOfWeek() const { static const int t[] = { 0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4 }; int y = year(), m = month(), off = 0; for (int i = 0; i < 12; ++i) off = m == i + 1 ? t[i] : off; y -= m < 3; uint w = uint(y + y / 4 - y / 100 + y / 400 + off + day()) % 7u; return w == 0 ? 7 : int(w); }
QTime::QTime(int h, int m, int s, int) : mds(h << 16 | m << 8 | s) {}
int QTime::hour() const { return mds >> 16; }
int QTime::minute() const { return (mds >> 8) & 0xff; }
int QTime::second() const { return mds & 0xff; }
struct DT { QDate d; QTime t; int offset; bool now; };
QDateTime::Data::Data() { d = 0; }
QDateTime::Data::Data(Qt::TimeSpec) { d = 0; }
QDateTime::Data::Data(const Data &o) { d = o.d; }
QDateTime::Data::Data(Data &&o) { d = o.d; o.d = 0; }
QDateTime::Data &QDateTime::Data::operator=(const Data &o) { d = o.d; return *this; }
QDateTime::Data::~Data() {}
QDateTime::QDateTime() Q_DECL_NOEXCEPT_EXPR(true) {}
QDateTime::QDateTime(const QDate &a, const QTime &b, Qt::TimeSpec s) { if (s != Qt::UTC) sx_unmodelled("time zone"); DT *x = new DT; x->d = a; x->t = b; x->offset = 0; x->now = false; d.d = reinterpret_cast<QDateTimePrivate *>(x); }
QDateTime::QDateTime(const QDate &a, const QTime &b, Qt::TimeSpec s, int off) { if (s != Qt::UTC && s != Qt::OffsetFromUTC) sx_unmodelled("time zone"); DT *x = new DT; x->d = a; x->t = b; x->offset = s == Qt::UTC ? 0 : off; x->now = false; d.d = reinterpret_cast<QDateTimePrivate *>(x); }
QDateTime::QDateTime(const QDateTime &o) Q_DECL_NOTHROW : d(o.d) {}
QDateTime::QDateTime(QDateTime &&o) Q_DECL_NOTHROW : d(o.d) {}
QDateTime::~QDateTime() {}
QDateTime &QDateTime::operator=(const QDateTime &o) Q_DECL_NOTHROW { d = o.d; return *this; }
QDateTime QDateTime::currentDateTime() { QDateTime r; DT *x = new DT; x->d = QDate(2020, 1, 2); x->t = QTime(3, 4, 5); x->offset = 0; x->now = true; r.d.d = reinterpret_cast<QDateTimePrivate *>(x); return r; }
QDateTime QDateTime::currentDateTimeUtc() { return currentDateTime(); }
QDate QDateTime::date() const { return reinterpret_cast<DT *>(d.d)->d; }
QTime QDateTime::time() const { return reinterpret_cast<DT *>(d.d)->t; }
static int monthDays(int y, int m) { if (m == 2) return (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 29 : 28; return (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
QDateTime QDateTime::toTimeSpec(Qt::TimeSpec s) const {
	if (s != Qt::UTC) sx_unmodelled("time zone"); DT *x = reinterpret_cast<DT *>(d.d); if (x->offset == 0) return *this;
	int t = x->t.hour() * 3600 + x->t.minute() * 60 + x->t.second() - x->offset, y = x->d.year(), m = x->d.month(), day = x->d.day();
	if (t < 0) { t += 86400; if (--day == 0) { if (--m == 0) { m = 12; --y; } day = monthDays(y, m); } } else if (t >= 86400) { t -= 86400; if (++day > monthDays(y, m)) { day = 1; if (++m == 13) { m = 1; ++y; } } }
	return QDateTime(QDate(y, m, day), QTime(t / 3600, t / 60 % 60, t % 60), Qt::UTC);
}
#define X reinterpret_cast<DT *>(d.d)
static qint64 dayNumber(const QDate &a) { int y = a.year(), m = a.month(); static const int cum[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 }; if (y < 1) sx_unmodelled("years before the common era"); qint64 p = y - 1; return 365 * p + p / 4 - p / 100 + p / 400 + cum[m - 1] + (m > 2 && QDate::isLeapYear(y) ? 1 : 0) + a.day() - 1 - 719162; }
static QDate dayOf(qint64 n) { n += 719162; if (n < 0) sx_unmodelled("years before the common era"); qint64 c4 = n / 146097; n %= 146097; qint64 y = 400 * c4 + 1; qint64 c = n / 36524; if (c == 4) c = 3; n -= c * 36524; qint64 q = n / 1461; n -= q * 1461; qint64 r = n / 365; if (r == 4) r = 3; n -= r * 365; y += 100 * c + 4 * q + r; int m = 1; while (n >= monthDays(int(y), m)) { n -= monthDays(int(y), m); ++m; } return QDate(int(y), m, int(n) + 1); }
bool QDate::isLeapYear(int y) { if (y < 1) ++y; return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int QDate::daysInMonth() const { return monthDays(year(), month()); }
int QDate::dayOfYear() const { return int(dayNumber(*this) - dayNumber(QDate(year(), 1, 1))) + 1; }
QDate QDate::addDays(qint64 n) const { return dayOf(dayNumber(*this) + n); }
qint64 QDate::daysTo(const QDate &o) const { return dayNumber(o) - dayNumber(*this); }
bool QDateTime::isNull() const { return !d.d; }
bool QDateTime::isValid() const { return d.d && X->d.isValid(); }
Qt::TimeSpec QDateTime::timeSpec() const { if (!d.d || X->now) return Qt::LocalTime; return X->offset ? Qt::OffsetFromUTC : Qt::UTC; }
int QDateTime::offsetFromUtc() const { return d.d ? X->offset : 0; }
qint64 QDateTime::toSecsSinceEpoch() const { if (!d.d) return 0; return dayNumber(X->d) * 86400 + X->t.hour() * 3600 + X->t.minute() * 60 + X->t.second() - X->offset; }
qint64 QDateTime::toMSecsSinceEpoch() const { return toSecsSinceEpoch() * 1000; }
uint QDateTime::toTime_t() const { qint64 v = toSecsSinceEpoch(); return v >= 0 && v < 4294967296LL ? uint(v) : uint(-1); }
static QDateTime ofSecs(qint64 v, int off) { v += off; qint64 dn = v / 86400, r = v % 86400; if (r < 0) { r += 86400; --dn; } return QDateTime(dayOf(dn), QTime(int(r / 3600), int(r / 60 % 60), int(r % 60)), off ? Qt::OffsetFromUTC : Qt::UTC, off); }
QDateTime QDateTime::addSecs(qint64 n) const { if (!d.d) return *this; return ofSecs(toSecsSinceEpoch() + n, X->offset); }
QDateTime QDateTime::addDays(qint64 n) const { if (!d.d) return *this; return ofSecs(toSecsSinceEpoch() + n * 86400, X->offset); }
qint64 QDateTime::secsTo(const QDateTime &o) const { return o.toSecsSinceEpoch() - toSecsSinceEpoch(); }
QDateTime QDateTime::toOffsetFromUtc(int off) const { return ofSecs(toSecsSinceEpoch(), off); }
bool QDateTime::operator==(const QDateTime &o) const { return toSecsSinceEpoch() == o.toSecsSinceEpoch(); }
bool QDateTime::operator<(const QDateTime &o) const { return toSecsSinceEpoch() < o.toSecsSinceEpoch(); }
#undef X
QString QDateTime::toString(const QString &f) const { if (!reinterpret_cast<DT *>(d.d)->now || f != "dd/MMM/yyyy hh:mm:ss") sx_unmodelled("QDateTime::toString"); return QString("02/Jan/2020 03:04:05"); }

// ---------------------------------------------------------------- QVariant
#define P(T) (static_cast<T *>(d.data.ptr))
static void vset(QVariant::Private &d, uint t, void *p) { d.type = t; d.is_shared = false; d.is_null = false; d.data.ptr = p; }
static void vcopy(QVariant::Private &d, const QVariant::Private &o) {
	d = o; switch (o.type) { case QMetaType::QByteArray: d.data.ptr = new QByteArray(*static_cast<QByteArray *>(o.data.ptr)); break; case QMetaType::QString: d.data.ptr = new QString(*static_cast<QString *>(o.data.ptr)); break; case QMetaType::QUrl: d.data.ptr = new QUrl(*static_cast<QUrl *>(o.data.ptr)); break; case QMetaType::Int: case QMetaType::Bool: case QMetaType::UInt: case QMetaType::LongLong: case 0: break; default: sx_unmodelled("QVariant type"); }
}
QVariant::QVariant(const QByteArray &v) { vset(d, QMetaType::QByteArray, new QByteArray(v)); }
QVariant::QVariant(const QString &v) { vset(d, QMetaType::QString, new QString(v)); }
QVariant::QVariant(const char *v) { vset(d, QMetaType::QString, new QString(QString::fromUtf8(v))); }
QVariant::QVariant(const QUrl &v) { vset(d, QMetaType::QUrl, new QUrl(v)); }
QVariant::QVariant(int v) { vset(d, QMetaType::Int, 0); d.data.i = v; }
QVariant::QVariant(uint v) { vset(d, QMetaType::UInt, 0); d.data.u = v; }
QVariant::QVariant(bool v) { vset(d, QMetaType::Bool, 0); d.data.b = v; }
QVariant::QVariant(qlonglong v) { vset(d, QMetaType::LongLong, 0); d.data.ll = v; }
QVariant::QVariant(int, const void *, uint) { sx_unmodelled("QVariant of a custom type"); }
QVariant::QVariant(const QVariant &o) { vcopy(d, o.d); }
QVariant::~QVariant() {}
QVariant &QVariant::operator=(const QVariant &o) { if (this != &o) vcopy(d, o.d); return *this; }
int QVariant::toInt(bool *ok) const { bool g = true; int r = 0; switch (d.type) { case QMetaType::Int: case QMetaType::UInt: r = d.data.i; break; case QMetaType::Bool: r = d.data.b; break; case QMetaType::LongLong: r = int(d.data.ll); break; case QMetaType::QByteArray: r = P(QByteArray)->toInt(&g); break; case QMetaType::QString: r = P(QString)->toInt(&g); break; default: g = false; } if (ok) *ok = g; return r; }
bool QVariant::toBool() const { switch (d.type) { case QMetaType::Bool: return d.data.b; case QMetaType::Int: return d.data.i != 0; case 0: return false; } sx_unmodelled("QVariant::toBool"); return false; }
QByteArray QVariant::toByteArray() const { switch (d.type) { case QMetaType::QByteArray: return *P(QByteArray); case QMetaType::QString: return P(QString)->toUtf8(); case QMetaType::Int: return QByteArray::number(d.data.i); case 0: return QByteArray(); } sx_unmodelled("QVariant::toByteArray"); return QByteArray(); }
QString QVariant::toString() const { switch (d.type) { case QMetaType::QByteArray: return QString::fromUtf8(*P(QByteArray)); case QMetaType::QString: return *P(QString); case 0: return QString(); } sx_unmodelled("QVariant::toString"); return QString(); }
QUrl QVariant::toUrl() const { switch (d.type) { case QMetaType::QUrl: return *P(QUrl); case QMetaType::QString: return QUrl(*P(QString)); case 0: return QUrl(); } return QUrl(); }
int QVariant::userType() const { return int(d.type); }
QVariant::Type QVariant::type() const { return Type(d.type); }
bool QVariant::isNull() const { switch (d.type) { case QMetaType::QByteArray: return P(QByteArray)->isNull(); case QMetaType::QString: return P(QString)->isNull(); case 0: return true; } return false; }
void QVariant::clear() { d.type = 0; d.is_null = true; }
