// QArrayData, QByteArray, QString, QListData, QHashData, QMapDataBase, small text helpers.
#include "qm.h"
#include <QtCore/QByteArray>
#include <QtCore/QString>
#include <QtCore/QStringList>
#include <QtCore/QList>
#include <QtCore/QHash>
#include <QtCore/QMap>
#include <QtCore/QVector>
#include <QtCore/QDebug>
#include <QtCore/QTextStream>
#include <QtCore/QRegExp>
#include <QtCore/5.15.13/QtCore/private/qutfcodec_p.h>

// ---------------------------------------------------------------- QArrayData
const QArrayData QArrayData::shared_null[2] = { { Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 0, sizeof(QArrayData) }, { { Q_BASIC_ATOMIC_INITIALIZER(0) }, 0, 0, 0, 0 } };
static const QArrayData qt_array[3] = { { Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 0, sizeof(QArrayData) }, { { Q_BASIC_ATOMIC_INITIALIZER(0) }, 0, 0, 0, sizeof(QArrayData) }, { { Q_BASIC_ATOMIC_INITIALIZER(0) }, 0, 0, 0, 0 } };
static size_t blockBytes(size_t &capacity, size_t objectSize, size_t headerSize, bool grow) {
	size_t bytes = capacity * objectSize + headerSize;
	if (grow) {
		size_t more = 1; while (more <= bytes) more <<= 1;
		if (more / 2 == bytes) more = bytes * 2 > bytes ? more : bytes; // next power of two strictly above, as qNextPowerOfTwo
		bytes = more; capacity = (bytes - headerSize) / objectSize; bytes = capacity * objectSize + headerSize;
	}
	return bytes;
}
QArrayData *QArrayData::allocate(size_t objectSize, size_t alignment, size_t capacity, AllocationOptions options) Q_DECL_NOTHROW {
	if (!(options & RawData) && !capacity) return const_cast<QArrayData *>(&qt_array[0]);
	size_t headerSize = sizeof(QArrayData); if (!(options & RawData)) headerSize += (alignment - Q_ALIGNOF(QArrayData));
	size_t bytes = blockBytes(capacity, objectSize, headerSize, options & Grow);
	QArrayData *h = static_cast<QArrayData *>(malloc(bytes));
	quintptr data = (quintptr(h) + sizeof(QArrayData) + alignment - 1) & ~(alignment - 1);
	h->ref.atomic.storeRelaxed(bool(!(options & Unsharable))); h->size = 0; h->alloc = uint(capacity); h->capacityReserved = bool(options & CapacityReserved); h->offset = data - quintptr(h);
	return h;
}
QArrayData *QArrayData::reallocateUnaligned(QArrayData *data, size_t objectSize, size_t capacity, AllocationOptions options) Q_DECL_NOTHROW {
	size_t bytes = blockBytes(capacity, objectSize, sizeof(QArrayData), options & Grow);
	QArrayData *h = static_cast<QArrayData *>(realloc((void*)data, bytes));
	h->capacityReserved = bool(options & CapacityReserved); h->alloc = uint(capacity); return h;
}
void QArrayData::deallocate(QArrayData *data, size_t, size_t) Q_DECL_NOTHROW { if (data == &qt_array[1] || data == &qt_array[0]) return; free((void*)data); }

// ---------------------------------------------------------------- C text helpers
static inline bool isSpaceC(uchar c) { return c == ' ' || (c >= 9 && c <= 13); }
static inline uchar asciiLower(uchar c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static inline uchar latin1Lower(uchar c) { return (c >= 'A' && c <= 'Z') || (c >= 0xC0 && c <= 0xDE && c != 0xD7) ? c + 32 : c; }
static inline uchar latin1Upper(uchar c) { return (c >= 'a' && c <= 'z') || (c >= 0xE0 && c <= 0xFE && c != 0xF7) ? c - 32 : c; }
int qstricmp(const char *a, const char *b) {
	if (!a || !b) return a ? 1 : (b ? -1 : 0);
	for (;; ++a, ++b) { int r = int(latin1Lower(uchar(*a))) - int(latin1Lower(uchar(*b))); if (r) return r; if (!*a) return 0; }
}
int qstrnicmp(const char *a, const char *b, uint n) { if (!a || !b) return a ? 1 : (b ? -1 : 0); for (; n--; ++a, ++b) { int r = int(latin1Lower(uchar(*a))) - int(latin1Lower(uchar(*b))); if (r) return r; if (!*a) break; } return 0; }
int qstrcmp(const char *a, const char *b) { return (a && b) ? strcmp(a, b) : (a ? 1 : (b ? -1 : 0)); }
int qstrcmp(const QByteArray &a, const char *s) { if (!s) return a.isEmpty() ? 0 : 1; int i = 0; for (; i < a.size() && s[i]; ++i) if (a.at(i) != s[i]) return uchar(a.at(i)) < uchar(s[i]) ? -1 : 1; return i < a.size() ? 1 : (s[i] ? -1 : 0); }
int qstrcmp(const QByteArray &a, const QByteArray &b) { int n = qMin(a.size(), b.size()); int r = memcmp(a.constData(), b.constData(), n); return r ? r : a.size() - b.size(); }
char *qstrdup(const char *s) { if (!s) return 0; size_t n = strlen(s); char *d = new char[n + 1]; memcpy(d, s, n + 1); return d; }
char *qstrcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d; }

// ---------------------------------------------------------------- QByteArray
#define IS_RAW_DATA(d) ((d)->offset != sizeof(QByteArrayData))
QByteArray::QByteArray(const char *data, int size) {
	if (!data) { d = Data::sharedNull(); return; }
	if (size < 0) size = int(strlen(data));
	if (!size) { d = Data::allocate(0); return; }
	d = Data::allocate(uint(size) + 1u); d->size = size; memcpy(d->data(), data, size); d->data()[size] = 0;
}
QByteArray::QByteArray(int size, char ch) { if (size <= 0) d = Data::allocate(0); else { d = Data::allocate(uint(size) + 1u); d->size = size; memset(d->data(), ch, size); d->data()[size] = 0; } }
QByteArray::QByteArray(int size, Qt::Initialization) { d = Data::allocate(uint(size) + 1u); d->size = size; d->data()[size] = 0; }
QByteArray &QByteArray::operator=(const QByteArray &o) Q_DECL_NOTHROW { o.d->ref.ref(); if (!d->ref.deref()) Data::deallocate(d); d = o.d; return *this; }
QByteArray &QByteArray::operator=(const char *str) {
	Data *x; if (!str) x = Data::sharedNull(); else if (!*str) x = Data::allocate(0); else {
		const int len = int(strlen(str)); const uint full = len + 1;
		if (d->ref.isShared() || full > d->alloc || (len < d->size && full < uint((d->alloc) >> 1))) reallocData(full, d->detachFlags());
		x = d; memcpy(x->data(), str, full); x->size = len; }
	x->ref.ref(); if (!d->ref.deref()) Data::deallocate(d); d = x; return *this;
}
void QByteArray::reallocData(uint alloc, Data::AllocationOptions options) {
	if (d->ref.isShared() || IS_RAW_DATA(d)) {
		Data *x = Data::allocate(alloc, options); x->size = qMin(int(alloc) - 1, d->size); memcpy(x->data(), d->data(), x->size); x->data()[x->size] = 0;
		if (!d->ref.deref()) Data::deallocate(d); d = x;
	} else d = static_cast<Data *>(QArrayData::reallocateUnaligned(d, 1, alloc, options));
}
void QByteArray::resize(int size) {
	if (size < 0) size = 0;
	if (IS_RAW_DATA(d) && !d->ref.isShared() && size < d->size) { d->size = size; return; }
	if (d->size == 0 && d->ref.isStatic()) { Data *x = Data::allocate(uint(size) + 1u); x->size = size; x->data()[size] = 0; d = x; }
	else {
		if (d->ref.isShared() || uint(size) + 1u > d->alloc || (!d->capacityReserved && size < d->size && size < int(d->alloc) >> 1)) reallocData(uint(size) + 1u, d->detachFlags() | Data::Grow);
		if (d->alloc) { d->size = size; d->data()[size] = 0; }
	}
}
void QByteArray::expand(int i) { resize(qMax(i + 1, d->size)); }
void QByteArray::clear() { if (!d->ref.deref()) Data::deallocate(d); d = Data::sharedNull(); }
void QByteArray::truncate(int pos) { if (pos < d->size) resize(pos); }
void QByteArray::chop(int n) { if (n > 0) resize(d->size - n); }
QByteArray &QByteArray::fill(char ch, int size) { resize(size < 0 ? d->size : size); if (d->size) memset(d->data(), ch, d->size); return *this; }
bool QByteArray::isNull() const { return d == QArrayData::sharedNull(); }
QByteArray &QByteArray::append(const QByteArray &ba) {
	if (d->size == 0 && d->ref.isStatic() && !IS_RAW_DATA(ba.d)) *this = ba;
	else if (ba.d->size != 0) {
		if (d->ref.isShared() || uint(d->size + ba.d->size) + 1u > d->alloc) reallocData(uint(d->size + ba.d->size) + 1u, d->detachFlags() | Data::Grow);
		memcpy(d->data() + d->size, ba.d->data(), ba.d->size); d->size += ba.d->size; d->data()[d->size] = 0;
	}
	return *this;
}
QByteArray &QByteArray::append(const char *str) { if (str) return append(str, int(strlen(str))); return *this; }
QByteArray &QByteArray::append(const char *str, int len) {
	if (len < 0) len = qstrlen(str);
	if (str && len) { if (d->ref.isShared() || uint(d->size + len) + 1u > d->alloc) reallocData(uint(d->size + len) + 1u, d->detachFlags() | Data::Grow); memcpy(d->data() + d->size, str, len); d->size += len; d->data()[d->size] = 0; }
	return *this;
}
QByteArray &QByteArray::append(char ch) { if (d->ref.isShared() || uint(d->size) + 2u > d->alloc) reallocData(uint(d->size) + 2u, d->detachFlags() | Data::Grow); d->data()[d->size++] = ch; d->data()[d->size] = 0; return *this; }
QByteArray &QByteArray::prepend(const QByteArray &ba) { QByteArray t(ba); t.detach(); t.append(*this); return *this = t; }
QByteArray &QByteArray::prepend(const char *s) { return prepend(QByteArray(s)); }
QByteArray &QByteArray::prepend(const char *s, int len) { return prepend(QByteArray(s, len)); }
QByteArray &QByteArray::prepend(char c) { return prepend(QByteArray(1, c)); }
QByteArray &QByteArray::insert(int i, const char *s, int len) { if (i < 0 || len <= 0 || !s) return *this; QByteArray t = left(i); t.detach(); while (t.size() < i) t.append(' '); t.append(s, len); t.append(mid(i)); return *this = t; }
QByteArray &QByteArray::insert(int i, const QByteArray &ba) { QByteArray c(ba); return insert(i, c.constData(), c.size()); }
QByteArray &QByteArray::insert(int i, const char *s) { return insert(i, s, qstrlen(s)); }
QByteArray &QByteArray::insert(int i, char ch) { return insert(i, &ch, 1); }
QByteArray &QByteArray::remove(int pos, int len) {
	if (len <= 0 || uint(pos) >= uint(d->size)) return *this; detach();
	if (len >= d->size - pos) resize(pos); else { memmove(d->data() + pos, d->data() + pos + len, d->size - pos - len); resize(d->size - len); }
	return *this;
}
QByteArray &QByteArray::replace(int pos, int len, const char *after, int alen) { QByteArray t = left(pos); t.append(after, alen); if (alen == 0) {} t.append(mid(pos + len)); return *this = t; }
QByteArray &QByteArray::replace(int pos, int len, const QByteArray &after) { QByteArray a(after); return replace(pos, len, a.constData(), a.size()); }
QByteArray &QByteArray::replace(const QByteArray &before, const QByteArray &after) { return replace(before.constData(), before.size(), after.constData(), after.size()); }
QByteArray &QByteArray::replace(const char *before, int bsize, const char *after, int asize) {
	QByteArray r; int i = 0; if (!bsize) { sx_unmodelled("QByteArray::replace empty"); }
	while (i < size()) { if (i + bsize <= size() && memcmp(constData() + i, before, bsize) == 0) { r.append(after, asize); i += bsize; } else r.append(constData()[i++]); }
	return *this = r;
}
QByteArray &QByteArray::replace(char before, char after) { detach(); for (int i = 0; i < d->size; ++i) if (d->data()[i] == before) d->data()[i] = after; return *this; }
QByteArray QByteArray::left(int len) const { if (len >= d->size) return *this; if (len < 0) len = 0; return QByteArray(d->data(), len); }
QByteArray QByteArray::right(int len) const { if (len >= d->size) return *this; if (len < 0) len = 0; return QByteArray(d->data() + d->size - len, len); }
QByteArray QByteArray::mid(int pos, int len) const {
	if (pos > d->size) return QByteArray();
	if (pos < 0) { if (len < 0 || len + pos >= d->size) return *this; if (len + pos <= 0) return QByteArray(); len += pos; pos = 0; }
	if (len < 0 || len > d->size - pos) len = d->size - pos;
	if (pos == 0 && len == d->size) return *this; if (len == 0) return QByteArray("", 0);
	return QByteArray(d->data() + pos, len);
}
bool QByteArray::startsWith(const QByteArray &ba) const { return d == ba.d || ba.d->size == 0 || (d->size >= ba.d->size && memcmp(d->data(), ba.d->data(), ba.d->size) == 0); }
bool QByteArray::startsWith(const char *s) const { int n = qstrlen(s); return n == 0 || (d->size >= n && memcmp(d->data(), s, n) == 0); }
bool QByteArray::startsWith(char c) const { return d->size > 0 && d->data()[0] == c; }
bool QByteArray::endsWith(const QByteArray &ba) const { return ba.d->size == 0 || (d->size >= ba.d->size && memcmp(d->data() + d->size - ba.d->size, ba.d->data(), ba.d->size) == 0); }
bool QByteArray::endsWith(const char *s) const { int n = qstrlen(s); return n == 0 || (d->size >= n && memcmp(d->data() + d->size - n, s, n) == 0); }
bool QByteArray::endsWith(char c) const { return d->size > 0 && d->data()[d->size - 1] == c; }
int QByteArray::indexOf(char ch, int from) const { if (from < 0) from = qMax(from + d->size, 0); for (int i = from; i < d->size; ++i) if (d->data()[i] == ch) return i; return -1; }
int QByteArray::lastIndexOf(char ch, int from) const { if (from < 0) from += d->size; else if (from > d->size) from = d->size - 1; for (int i = qMin(from, d->size - 1); i >= 0; --i) if (d->data()[i] == ch) return i; return -1; }
static int findIn(const char *h, int n, const char *s, int m, int from) { if (from < 0) from = qMax(from + n, 0); for (int i = from; i + m <= n; ++i) if (memcmp(h + i, s, m) == 0) return i; return -1; }
int QByteArray::indexOf(const QByteArray &ba, int from) const { return findIn(d->data(), d->size, ba.d->data(), ba.d->size, from); }
int QByteArray::indexOf(const char *s, int from) const { return findIn(d->data(), d->size, s, qstrlen(s), from); }
int QByteArray::count(char ch) const { int n = 0; for (int i = 0; i < d->size; ++i) n += d->data()[i] == ch; return n; }
QByteArray QByteArray::trimmed_helper(const QByteArray &a) { int b = 0, e = a.size(); while (b < e && isSpaceC(uchar(a.constData()[b]))) ++b; while (b < e && isSpaceC(uchar(a.constData()[e - 1]))) --e; if (b == 0 && e == a.size()) return a; return QByteArray(a.constData() + b, e - b); }
QByteArray QByteArray::trimmed_helper(QByteArray &a) { return trimmed_helper(const_cast<const QByteArray &>(a)); }
QByteArray QByteArray::toLower_helper(const QByteArray &a) { QByteArray r(a); r.detach(); for (int i = 0; i < r.size(); ++i) r.data()[i] = char(latin1Lower(uchar(r.constData()[i]))); return r; }
QByteArray QByteArray::toLower_helper(QByteArray &a) { return toLower_helper(const_cast<const QByteArray &>(a)); }
QByteArray QByteArray::toUpper_helper(const QByteArray &a) { QByteArray r(a); r.detach(); for (int i = 0; i < r.size(); ++i) r.data()[i] = char(latin1Upper(uchar(r.constData()[i]))); return r; }
QByteArray QByteArray::toUpper_helper(QByteArray &a) { return toUpper_helper(const_cast<const QByteArray &>(a)); }
QList<QByteArray> QByteArray::split(char sep) const { QList<QByteArray> l; int s = 0, e; while ((e = indexOf(sep, s)) != -1) { l.append(mid(s, e - s)); s = e + 1; } l.append(mid(s)); return l; }
QByteArray QByteArray::fromRawData(const char *data, int size) { Data *x; if (!data) x = Data::sharedNull(); else if (!size) x = Data::allocate(0); else x = Data::fromRawData(data, size); QByteArrayDataPtr dp = { x }; return QByteArray(dp); }
QByteArray &QByteArray::setRawData(const char *data, uint size) {
	if (d->ref.isShared() || d->alloc) *this = fromRawData(data, size);
	else if (data) { d->size = size; d->offset = data - reinterpret_cast<char *>(d); }
	else { d->offset = sizeof(QByteArrayData); d->size = 0; *d->data() = 0; }
	return *this;
}
// Integer parsing as QLocaleData::bytearrayToLongLong for base 10: white space around, optional sign, digits, in range.
static qlonglong parseLL(const char *s, int n, bool *okOut, int base) {
	bool ok = true; qulonglong v = 0; bool neg = false; int i = 0; if (base != 10 && base != 16) sx_unmodelled("number base");
	while (i < n && isSpaceC(uchar(s[i]))) ++i;
	if (i < n && s[i] == '-') { neg = true; ++i; } else if (i < n && s[i] == '+') ++i;
	int digits = 0; bool over = false;
	for (; i < n; ++i) {
		uchar c = uchar(s[i]); int dg; if (c >= '0' && c <= '9') dg = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') dg = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') dg = c - 'A' + 10; else break;
		if (v > (Q_UINT64_C(0xffffffffffffffff) - dg) / base) over = true; else v = v * base + dg; ++digits; }
	while (i < n && isSpaceC(uchar(s[i]))) ++i; if (i < n && !s[i]) i = n; /* text ends at a NUL */
	if (!digits || i < n || over) ok = false;
	if (ok && (neg ? v > Q_UINT64_C(0x8000000000000000) : v > Q_UINT64_C(0x7fffffffffffffff))) ok = false;
	if (okOut) *okOut = ok; return ok ? (neg ? qlonglong(0 - v) : qlonglong(v)) : 0;
}
qlonglong QByteArray::toLongLong(bool *ok, int base) const { return parseLL(d->data(), d->size, ok, base); }
int QByteArray::toInt(bool *ok, int base) const { bool k; qlonglong v = parseLL(d->data(), d->size, &k, base); if (k && (v < -2147483647LL - 1 || v > 2147483647LL)) k = false; if (ok) *ok = k; return k ? int(v) : 0; }
uint QByteArray::toUInt(bool *ok, int base) const { bool k; qlonglong v = parseLL(d->data(), d->size, &k, base); if (k && (v < 0 || v > 4294967295LL)) k = false; if (ok) *ok = k; return k ? uint(v) : 0; }
long QByteArray::toLong(bool *ok, int base) const { return toLongLong(ok, base); }
ushort QByteArray::toUShort(bool *ok, int base) const { bool k; qlonglong v = parseLL(d->data(), d->size, &k, base); if (k && (v < 0 || v > 65535)) k = false; if (ok) *ok = k; return k ? ushort(v) : 0; }
static int fmtULL(qulonglong v, int base, char *buf) { int n = 0; char t[72]; do { int dg = int(v % base); t[n++] = char(dg < 10 ? '0' + dg : 'a' + dg - 10); v /= base; } while (v); for (int i = 0; i < n; ++i) buf[i] = t[n - 1 - i]; return n; }
static int fmtLL(qlonglong v, int base, char *buf) { if (v < 0 && base == 10) { buf[0] = '-'; return 1 + fmtULL(0 - qulonglong(v), base, buf + 1); } return fmtULL(qulonglong(v), base, buf); }
QByteArray QByteArray::number(int n, int base) { char b[80]; return QByteArray(b, base == 10 ? fmtLL(n, base, b) : fmtULL(uint(n), base, b)); }
QByteArray QByteArray::number(uint n, int base) { char b[80]; return QByteArray(b, fmtULL(n, base, b)); }
QByteArray QByteArray::number(qlonglong n, int base) { char b[80]; return QByteArray(b, fmtLL(n, base, b)); }
QByteArray QByteArray::number(qulonglong n, int base) { char b[80]; return QByteArray(b, fmtULL(n, base, b)); }
QByteArray &QByteArray::setNum(qlonglong n, int base) { return *this = number(n, base); }
QByteArray &QByteArray::setNum(qulonglong n, int base) { return *this = number(n, base); }
QByteArray QByteArray::toHex() const { QByteArray r(d->size * 2, Qt::Uninitialized); const char *h = "0123456789abcdef"; for (int i = 0; i < d->size; ++i) { uchar c = uchar(d->data()[i]); r.data()[2 * i] = h[c >> 4]; r.data()[2 * i + 1] = h[c & 15]; } return d->size ? r : QByteArray(); }
static inline bool hexv(uchar c, uchar &v) { if (c >= '0' && c <= '9') { v = c - '0'; return true; } if (c >= 'a' && c <= 'f') { v = c - 'a' + 10; return true; } if (c >= 'A' && c <= 'F') { v = c - 'A' + 10; return true; } return false; }
// As q_fromPercentEncoding: any two characters after '%' are taken as a code, wrong digits counting as 0; a '%' in the last two places stays.
static QByteArray fromPct(const QByteArray &in, char pct) {
	if (in.isEmpty()) return in; QByteArray r; r.reserve(in.size());
	const char *p = in.constData(); int n = in.size();
	for (int i = 0; i < n;) {
		if (p[i] == pct && i + 2 < n) { uchar a = 0, b = 0; uchar x = uchar(p[++i]); uchar y = uchar(p[++i]); if (!hexv(x, a)) a = 0; if (!hexv(y, b)) b = 0; r.append(char((a << 4) | b)); ++i; }
		else r.append(p[i++]);
	}
	return r;
}
QByteArray QByteArray::toPercentEncoding(const QByteArray &ex, const QByteArray &in, char pc) const {
	static const char hex[] = "0123456789ABCDEF"; QByteArray r; if (isNull()) return r; if (isEmpty()) return QByteArray(data(), 0); const char *p = constData();
	for (int i = 0, n = size(); i < n; ++i) { unsigned char c = (unsigned char)p[i]; bool plain = ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~'); for (int k = 0; k < ex.size(); ++k) plain |= (unsigned char)ex.constData()[k] == c; bool forced = (char)c == pc; for (int k = 0; k < in.size(); ++k) forced |= (unsigned char)in.constData()[k] == c; for (int k = 0; k < ex.size(); ++k) if ((unsigned char)ex.constData()[k] == c) forced = false;
		if (plain && !forced) r.append(char(c)); else { r.append(pc); r.append(hex[c >> 4]); r.append(hex[c & 15]); } }
	return r;
}
QByteArray QByteArray::fromPercentEncoding(const QByteArray &in, char pct) { if (in.isNull()) return QByteArray(); if (in.isEmpty()) return QByteArray(in.data(), 0); return fromPct(in, pct); }
uint qHash(const QByteArray &k, uint seed) Q_DECL_NOTHROW { uint h = seed; for (int i = 0; i < k.size(); ++i) h = 31 * h + uchar(k.constData()[i]); return h; }
uint qHash(const QString &k, uint seed) Q_DECL_NOTHROW { uint h = seed; for (int i = 0; i < k.size(); ++i) h = 31 * h + k.constData()[i].unicode(); return h; }

// ---------------------------------------------------------------- QString
typedef QTypedArrayData<ushort> SD;
const QString::Null QString::null = { };
QString::QString(const QChar *u, int size) { if (!u) { d = Data::sharedNull(); return; } if (size < 0) { size = 0; while (u[size].unicode()) ++size; } if (!size) d = Data::allocate(0); else { d = Data::allocate(size + 1); d->size = size; memcpy(d->data(), u, size * 2); d->data()[size] = 0; } }
QString::QString(int size, Qt::Initialization) { d = Data::allocate(size + 1); d->size = size; d->data()[size] = 0; }
QString::QString(int size, QChar ch) { if (size <= 0) d = Data::allocate(0); else { d = Data::allocate(size + 1); d->size = size; for (int i = 0; i < size; ++i) d->data()[i] = ch.unicode(); d->data()[size] = 0; } }
QString::QString(QChar ch) { d = Data::allocate(2); d->size = 1; d->data()[0] = ch.unicode(); d->data()[1] = 0; }
QString &QString::operator=(const QString &o) Q_DECL_NOTHROW { o.d->ref.ref(); if (!d->ref.deref()) Data::deallocate(d); d = o.d; return *this; }
QString &QString::operator=(QChar c) { return *this = QString(c); }
QString &QString::operator=(QLatin1String o) { return *this = QString(o); }
void QString::reallocData(uint alloc, bool grow) {
	Data::AllocationOptions opt = d->detachFlags(); if (grow) opt |= Data::Grow;
	if (d->ref.isShared() || d->offset != sizeof(QStringData)) { Data *x = Data::allocate(alloc, opt); x->size = qMin(int(alloc) - 1, d->size); memcpy(x->data(), d->data(), x->size * 2); x->data()[x->size] = 0; if (!d->ref.deref()) Data::deallocate(d); d = x; }
	else d = static_cast<Data *>(QArrayData::reallocateUnaligned(d, 2, alloc, opt));
}
void QString::resize(int size) {
	if (size < 0) size = 0;
	if (d->offset != sizeof(QStringData) && !d->ref.isShared() && size < d->size) { d->size = size; return; }
	if (d->ref.isShared() || uint(size) + 1u > d->alloc) reallocData(uint(size) + 1u, true);
	if (d->alloc) { d->size = size; d->data()[size] = 0; }
}
void QString::expand(int i) { resize(qMax(i + 1, d->size)); }
void QString::truncate(int pos) { if (pos < d->size) resize(pos); }
void QString::chop(int n) { if (n > 0) resize(d->size - n); }
QString &QString::append(const QString &s) {
	if (s.d != Data::sharedNull()) {
		if (d == Data::sharedNull()) operator=(s);
		else { if (d->ref.isShared() || uint(d->size + s.d->size) + 1u > d->alloc) reallocData(uint(d->size + s.d->size) + 1u, true); memcpy(d->data() + d->size, s.d->data(), s.d->size * 2); d->size += s.d->size; d->data()[d->size] = 0; }
	}
	return *this;
}
QString &QString::append(const QChar *s, int n) { if (s && n > 0) { int o = d->size; QString c(s, n); resize(o + n); memcpy(d->data() + o, c.d->data(), n * 2); } return *this; }
QString &QString::append(QLatin1String s) { return append(QString(s)); }
QString &QString::append(QChar ch) { if (d->ref.isShared() || uint(d->size) + 2u > d->alloc) reallocData(uint(d->size) + 2u, true); d->data()[d->size++] = ch.unicode(); d->data()[d->size] = 0; return *this; }
QString &QString::insert(int i, const QChar *s, int len) { QString t = left(i); t.append(s, len); t.append(mid(i)); return *this = t; }
QString &QString::insert(int i, QChar c) { return insert(i, &c, 1); }
QString &QString::insert(int i, QLatin1String s) { QString t(s); return insert(i, t.constData(), t.size()); }
QString &QString::remove(int pos, int len) { if (pos < 0) pos += d->size; if (uint(pos) >= uint(d->size)) return *this; if (len >= d->size - pos) resize(pos); else if (len > 0) { detach(); memmove(d->data() + pos, d->data() + pos + len, (d->size - pos - len + 1) * 2); d->size -= len; } return *this; }
QString &QString::replace(int pos, int len, const QChar *u, int alen) { QString t = left(pos); t.append(u, alen); t.append(mid(pos + len)); return *this = t; }
QString &QString::replace(int pos, int len, const QString &a) { QString c(a); return replace(pos, len, c.constData(), c.size()); }
QString QString::left(int n) const { if (uint(n) >= uint(d->size)) return *this; return QString((const QChar *)d->data(), n); }
QString QString::right(int n) const { if (uint(n) >= uint(d->size)) return *this; return QString((const QChar *)d->data() + d->size - n, n); }
QString QString::mid(int pos, int len) const {
	if (pos > d->size) return QString(); if (pos < 0) { if (len < 0 || len + pos >= d->size) return *this; if (len + pos <= 0) return QString(); len += pos; pos = 0; }
	if (len < 0 || len > d->size - pos) len = d->size - pos; if (pos == 0 && len == d->size) return *this; if (!len) return QString((const QChar *)d->data(), 0) ; return QString((const QChar *)d->data() + pos, len);
}
int QString::toUcs4_helper(const ushort *, int, uint *) { sx_unmodelled("toUcs4"); return 0; }
static QString fromLat(const char *s, int n) { if (!s) return QString(); if (n < 0) n = int(strlen(s)); QString r(n, Qt::Uninitialized); ushort *o = (ushort *)r.data(); for (int i = 0; i < n; ++i) o[i] = uchar(s[i]); return r; }
QString::Data *QString::fromLatin1_helper(const char *s, int size) { if (!s) return Data::sharedNull(); if (size < 0) size = int(strlen(s)); if (!size) return Data::allocate(0); Data *d = Data::allocate(size + 1); d->size = size; for (int i = 0; i < size; ++i) d->data()[i] = uchar(s[i]); d->data()[size] = 0; return d; }
QString::Data *QString::fromAscii_helper(const char *s, int size) { QString t = fromUtf8_helper(s, size < 0 ? (s ? int(strlen(s)) : 0) : size); if (!s) return Data::sharedNull(); t.d->ref.ref(); return t.d; }
QString QString::fromUtf8_helper(const char *s, int size) {
	if (!s) return QString(); if (size < 0) size = int(strlen(s)); if (!size) return QString(QLatin1String(""));
	QString r(size, Qt::Uninitialized); ushort *dst = (ushort *)r.data(); const uchar *src = (const uchar *)s, *end = src + size;
	if (size >= 3 && src[0] == 0xEF && src[1] == 0xBB && src[2] == 0xBF) src += 3;
	while (src < end) { uchar b = *src++; int res = QUtf8Functions::fromUtf8<QUtf8BaseTraits>(b, dst, src, end); if (res < 0) *dst++ = QChar::ReplacementCharacter; }
	r.truncate(int(dst - (const ushort *)r.constData())); return r;
}
QString QString::fromLocal8Bit_helper(const char *s, int n) { return fromUtf8_helper(s, n); }
static QByteArray toUtf8_(const ushort *src, int n) {
	if (!n) return QByteArray("", 0); QByteArray r(n * 3, Qt::Uninitialized); uchar *dst = (uchar *)r.data(); const ushort *end = src + n;
	while (src < end) { ushort u = *src++; int res = QUtf8Functions::toUtf8<QUtf8BaseTraits>(u, dst, src, end); if (res < 0) *dst++ = '?'; }
	r.truncate(int(dst - (uchar *)r.constData())); return r;
}
QByteArray QString::toUtf8_helper(const QString &s) { if (s.isNull()) return QByteArray(); return toUtf8_((const ushort *)s.constData(), s.size()); }
QByteArray QString::toLocal8Bit_helper(const QChar *u, int n) { return toUtf8_((const ushort *)u, n); }
QByteArray QString::toLatin1_helper(const QString &s) { if (s.isNull()) return QByteArray(); QByteArray r(s.size(), Qt::Uninitialized); for (int i = 0; i < s.size(); ++i) { ushort c = s.constData()[i].unicode(); r.data()[i] = c > 255 ? '?' : char(c); } return r; }
QByteArray QString::toLatin1_helper_inplace(QString &s) { return toLatin1_helper(s); }
const ushort *QString::utf16() const { if (d->offset != sizeof(QStringData)) const_cast<QString *>(this)->reallocData(uint(d->size) + 1u); return d->data(); }
// Simple case folding. Beyond Latin-1 only the two characters that fold to ASCII letters are known; two different ones beyond it are not compared.
static inline ushort foldc(ushort c, ushort other) {
	if (c < 0x80) return c >= 'A' && c <= 'Z' ? c + 32 : c; if (c == 0x212a) return 'k'; if (c == 0x17f) return 's';
	if (c == 0xb5) return 0x3bc; if (c >= 0xc0 && c <= 0xde && c != 0xd7) return c + 32; if (c > 0xff && other > 0xb4) sx_unmodelled("case folding of two non-Latin-1 characters"); return c;
}
static int cmpS(const ushort *a, int n, const ushort *b, int m, Qt::CaseSensitivity cs) {
	int l = qMin(n, m);
	if (cs == Qt::CaseSensitive) { for (int i = 0; i < l; ++i) if (a[i] != b[i]) return int(a[i]) - int(b[i]); }
	else for (int i = 0; i < l; ++i) if (a[i] != b[i]) { int r = int(foldc(a[i], b[i])) - int(foldc(b[i], a[i])); if (r) return r; }
	return n - m;
}
int QString::compare(const QString &o, Qt::CaseSensitivity cs) const Q_DECL_NOTHROW { return cmpS(d->data(), d->size, o.d->data(), o.d->size, cs); }
int QString::compare(QLatin1String o, Qt::CaseSensitivity cs) const Q_DECL_NOTHROW { QString t(o); return compare(t, cs); }
int QString::compare_helper(const QChar *a, int n, const QChar *b, int m, Qt::CaseSensitivity cs) Q_DECL_NOTHROW { return cmpS((const ushort *)a, n, (const ushort *)b, m, cs); }
int QString::compare_helper(const QChar *a, int n, QLatin1String b, Qt::CaseSensitivity cs) Q_DECL_NOTHROW { QString t(b); return cmpS((const ushort *)a, n, t.d->data(), t.size(), cs); }
int QString::compare_helper(const QChar *a, int n, const char *b, int m, Qt::CaseSensitivity cs) Q_DECL_NOTHROW { QString t = fromUtf8_helper(b, m < 0 ? qstrlen(b) : m); return cmpS((const ushort *)a, n, t.d->data(), t.size(), cs); }
bool operator==(const QString &a, const QString &b) Q_DECL_NOTHROW { if (a.size() != b.size()) return false; return memcmp(a.constData(), b.constData(), a.size() * 2) == 0; }
bool operator<(const QString &a, const QString &b) Q_DECL_NOTHROW { return a.compare(b) < 0; }
bool QString::operator==(QLatin1String o) const Q_DECL_NOTHROW { if (d->size != o.size()) return false; for (int i = 0; i < d->size; ++i) if (d->data()[i] != uchar(o.data()[i])) return false; return true; }
bool QString::operator<(QLatin1String o) const Q_DECL_NOTHROW { return compare(o) < 0; }
bool QString::operator>(QLatin1String o) const Q_DECL_NOTHROW { return compare(o) > 0; }
bool QString::startsWith(const QString &s, Qt::CaseSensitivity cs) const { return d->size >= s.d->size && (cs == Qt::CaseSensitive ? memcmp(d->data(), s.d->data(), s.d->size * 2) == 0 : cmpS(d->data(), s.d->size, s.d->data(), s.d->size, cs) == 0); }
bool QString::startsWith(QLatin1String s, Qt::CaseSensitivity cs) const { return startsWith(QString(s), cs); }
bool QString::startsWith(QChar c, Qt::CaseSensitivity cs) const { return startsWith(QString(c), cs); }
bool QString::endsWith(const QString &s, Qt::CaseSensitivity cs) const { return d->size >= s.d->size && (cs == Qt::CaseSensitive ? memcmp(d->data() + d->size - s.d->size, s.d->data(), s.d->size * 2) == 0 : cmpS(d->data() + d->size - s.d->size, s.d->size, s.d->data(), s.d->size, cs) == 0); }
bool QString::endsWith(QLatin1String s, Qt::CaseSensitivity cs) const { return endsWith(QString(s), cs); }
bool QString::endsWith(QChar c, Qt::CaseSensitivity cs) const { return endsWith(QString(c), cs); }
int QString::indexOf(const QString &s, int from, Qt::CaseSensitivity cs) const { int n = d->size, m = s.d->size; if (from < 0) from += n; if (from < 0) from = 0; for (int i = from; i + m <= n; ++i) if (cs == Qt::CaseSensitive ? memcmp(d->data() + i, s.d->data(), m * 2) == 0 : cmpS(d->data() + i, m, s.d->data(), m, cs) == 0) return i; return -1; }
int QString::indexOf(QLatin1String s, int from, Qt::CaseSensitivity cs) const { return indexOf(QString(s), from, cs); }
int QString::indexOf(QChar c, int from, Qt::CaseSensitivity cs) const { return indexOf(QString(c), from, cs); }
int QString::lastIndexOf(QChar c, int from, Qt::CaseSensitivity) const { if (from < 0) from += d->size; for (int i = qMin(from, d->size - 1); i >= 0; --i) if (d->data()[i] == c.unicode()) return i; return -1; }
QString &QString::replace(const QString &b, const QString &a, Qt::CaseSensitivity cs) { QString r; int i = 0, m = b.size(); while (i < size()) { if (m && i + m <= size() && cmpS(d->data() + i, m, b.d->data(), m, cs) == 0) { r += a; i += m; } else r += at(i++); } return *this = r; }
QString &QString::replace(QChar b, QChar a, Qt::CaseSensitivity) { detach(); for (int i = 0; i < d->size; ++i) if (d->data()[i] == b.unicode()) d->data()[i] = a.unicode(); return *this; }
QString &QString::replace(QChar b, const QString &a, Qt::CaseSensitivity cs) { return replace(QString(b), a, cs); }
QString &QString::replace(QLatin1String b, QLatin1String a, Qt::CaseSensitivity cs) { return replace(QString(b), QString(a), cs); }
QString &QString::replace(const QString &b, QLatin1String a, Qt::CaseSensitivity cs) { return replace(b, QString(a), cs); }
QString &QString::replace(QLatin1String b, const QString &a, Qt::CaseSensitivity cs) { return replace(QString(b), a, cs); }
QStringList QString::split(QChar sep, Qt::SplitBehavior b, Qt::CaseSensitivity) const { QStringList l; int s = 0; for (int i = 0; i <= size(); ++i) if (i == size() || at(i) == sep) { if (i > s || b == Qt::KeepEmptyParts) l << mid(s, i - s); s = i + 1; } return l; }
QString QString::toLower_helper(const QString &s) { QString r(s); r.detach(); for (int i = 0; i < r.size(); ++i) { ushort c = r.at(i).unicode(); if (c > 0xff && c != 0x212a && c != 0x17f) sx_unmodelled("lower case of a non-Latin-1 character"); if (c != 0xb5 && c != 0x17f) c = foldc(c, c); r.data()[i] = QChar(c); } return r; }
QString QString::toLower_helper(QString &s) { return toLower_helper(const_cast<const QString &>(s)); }
QString QString::toUpper_helper(const QString &s) { QString r(s); r.detach(); for (int i = 0; i < r.size(); ++i) { ushort c = r.at(i).unicode(); if (c >= 0x80) sx_unmodelled("upper case"); if (c >= 'a' && c <= 'z') r.data()[i] = QChar(c - 32); } return r; }
QString QString::toUpper_helper(QString &s) { return toUpper_helper(const_cast<const QString &>(s)); }
QString QString::trimmed_helper(const QString &s) { int b = 0, e = s.size(); while (b < e && s.at(b).unicode() < 128 && isSpaceC(uchar(s.at(b).unicode()))) ++b; while (b < e && s.at(e - 1).unicode() < 128 && isSpaceC(uchar(s.at(e - 1).unicode()))) --e; return s.mid(b, e - b); }
QString QString::trimmed_helper(QString &s) { return trimmed_helper(const_cast<const QString &>(s)); }
QString QString::number(int n, int base) { return QString(QLatin1String(QByteArray::number(n, base))); }
QString QString::number(uint n, int base) { return QString(QLatin1String(QByteArray::number(n, base))); }
QString QString::number(qlonglong n, int base) { return QString(QLatin1String(QByteArray::number(n, base))); }
QString QString::number(qulonglong n, int base) { return QString(QLatin1String(QByteArray::number(n, base))); }
QString &QString::setNum(qlonglong n, int base) { return *this = number(n, base); }
QString &QString::setNum(qulonglong n, int base) { return *this = number(n, base); }
int QString::toInt(bool *ok, int base) const { return toLatin1().toInt(ok, base); }
qlonglong QString::toLongLong(bool *ok, int base) const { return toLatin1().toLongLong(ok, base); }

// arg(): the lowest-numbered place marker (%0..%99, optionally %L) is replaced everywhere.
static int digitAt(const ushort *p, int i, int n) { return i < n && p[i] >= '0' && p[i] <= '9' ? p[i] - '0' : -1; }
static bool marker(const ushort *p, int i, int n, int &num, int &len) {
	if (p[i] != '%') return false; int j = i + 1; if (j >= n) return false; if (p[j] == 'L') { ++j; if (j >= n) return false; }
	int a = digitAt(p, j, n); if (a < 0) return false; ++j; int b = digitAt(p, j, n); if (b >= 0) { a = 10 * a + b; ++j; } num = a; len = j - i; return true;
}
static QString argReplace(const QString &s, const QString &a, int width, QChar fill) {
	const ushort *p = (const ushort *)s.constData(); int n = s.size(), best = 1000, num, len;
	for (int i = 0; i < n;) { if (marker(p, i, n, num, len)) { if (num < best) best = num; i += len; } else ++i; }
	if (best == 1000) return s;
	QString v = a; if (width > 0) while (v.size() < width) v = QString(fill) + v; else while (v.size() < -width) v += fill;
	QString r; for (int i = 0; i < n;) { if (marker(p, i, n, num, len)) { if (num == best) r += v; else r.append((const QChar *)p + i, len); i += len; } else r.append(QChar(p[i++])); }
	return r;
}
QString QString::arg(const QString &a, int w, QChar f) const { return argReplace(*this, a, w, f); }
QString QString::arg(QLatin1String a, int w, QChar f) const { return argReplace(*this, QString(a), w, f); }
QString QString::arg(QStringView a, int w, QChar f) const { return argReplace(*this, QString(a.data(), int(a.size())), w, f); }
QString QString::arg(QChar a, int w, QChar f) const { return argReplace(*this, QString(a), w, f); }
QString QString::arg(char a, int w, QChar f) const { return argReplace(*this, QString(QLatin1Char(a)), w, f); }
QString QString::arg(qlonglong a, int w, int base, QChar f) const { return argReplace(*this, QString::number(a, base), w, f); }
QString QString::arg(qulonglong a, int w, int base, QChar f) const { return argReplace(*this, QString::number(a, base), w, f); }
QString QString::arg(double a, int w, char, int prec, QChar f) const {
	if (prec != 3) sx_unmodelled("QString::arg(double)"); if (a < 0) sx_unmodelled("negative double");
	qlonglong ms = qlonglong(a * 1000.0 + 0.5); QString t = QString::number(ms / 1000) + QLatin1Char('.'); QString fr = QString::number(ms % 1000); while (fr.size() < 3) fr = QLatin1Char('0') + fr; return argReplace(*this, t + fr, w, f);
}
QString QString::number(double a, char, int prec) { if (prec != 3 || a < 0) sx_unmodelled("QString::number(double)"); qlonglong ms = qlonglong(a * 1000.0 + 0.5); QString t = QString::number(ms / 1000) + QLatin1Char('.'); QString fr = QString::number(ms % 1000); while (fr.size() < 3) fr = QLatin1Char('0') + fr; return t + fr; }
QString QString::multiArg(int n, const QString **a) const {
	// Markers used are numbered in increasing order and replaced simultaneously.
	const ushort *p = (const ushort *)constData(); int sz = size(), num, len; int nums[100]; int cnt = 0;
	for (int i = 0; i < sz;) { if (marker(p, i, sz, num, len)) { bool seen = false; for (int k = 0; k < cnt; ++k) seen |= nums[k] == num; if (!seen) nums[cnt++] = num; i += len; } else ++i; }
	for (int i = 0; i < cnt; ++i) for (int j = i + 1; j < cnt; ++j) if (nums[j] < nums[i]) { int t = nums[i]; nums[i] = nums[j]; nums[j] = t; }
	QString r; for (int i = 0; i < sz;) { if (marker(p, i, sz, num, len)) { int k = 0; while (nums[k] != num) ++k; if (k < n) r += *a[k]; else r.append((const QChar *)p + i, len); i += len; } else r.append(QChar(p[i++])); }
	return r;
}
namespace QtPrivate {
QString argToQString(QStringView pat, size_t n, const ArgBase **args) {
	QString s(pat.data(), int(pat.size())); QString vals[16]; const QString *ptr[16]; if (n > 16) sx_unmodelled("many args");
	for (size_t i = 0; i < n; ++i) { if (args[i]->tag == ArgBase::U16) { const QStringViewArg &v = *static_cast<const QStringViewArg *>(args[i]); vals[i] = QString(v.string.data(), int(v.string.size())); } else if (args[i]->tag == ArgBase::L1) { const QLatin1StringArg &v = *static_cast<const QLatin1StringArg *>(args[i]); vals[i] = QString(v.string); } else sx_unmodelled("arg kind"); ptr[i] = &vals[i]; }
	return s.multiArg(int(n), ptr);
}
QString argToQString(QLatin1String pat, size_t n, const ArgBase **args) { QString s(pat); return argToQString(QStringView(s), n, args); }
int compareStrings(QStringView a, QStringView b, Qt::CaseSensitivity cs) Q_DECL_NOTHROW { return cmpS((const ushort *)a.data(), int(a.size()), (const ushort *)b.data(), int(b.size()), cs); }
int compareStrings(QStringView a, QLatin1String b, Qt::CaseSensitivity cs) Q_DECL_NOTHROW { QString t(b); return cmpS((const ushort *)a.data(), int(a.size()), (const ushort *)t.constData(), t.size(), cs); }
int compareStrings(QLatin1String a, QStringView b, Qt::CaseSensitivity cs) Q_DECL_NOTHROW { return -compareStrings(b, a, cs); }
int compareStrings(QLatin1String a, QLatin1String b, Qt::CaseSensitivity cs) Q_DECL_NOTHROW { QString t(a), u(b); return t.compare(u, cs); }
QString QStringList_join(const QStringList *l, const QChar *sep, int n) { QString r; for (int i = 0; i < l->size(); ++i) { if (i) r.append(sep, n); r.append(l->at(i)); } return r; }
bool QStringList_contains(const QStringList *l, const QString &s, Qt::CaseSensitivity cs) { for (int i = 0; i < l->size(); ++i) if (l->at(i).compare(s, cs) == 0) return true; return false; }
}

// ---------------------------------------------------------------- QListData
const QListData::Data QListData::shared_null = { Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 0, { 0 } };
static QListData::Data *listAlloc(int alloc) { QListData::Data *t = static_cast<QListData::Data *>(malloc(QListData::DataHeaderSize + alloc * sizeof(void *))); t->ref.initializeOwned(); t->alloc = alloc; return t; }
static int listGrow(int n) { int c = 4; while (c < n) c *= 2; return c; }
QListData::Data *QListData::detach_grow(int *idx, int num) { Data *x = d; int l = x->end - x->begin, nl = l + num; Data *t = listAlloc(listGrow(nl)); if (*idx < 0) *idx = 0; else if (*idx > l) *idx = l; t->begin = 0; t->end = nl; d = t; return x; }
QListData::Data *QListData::detach(int alloc) { Data *x = d; Data *t = listAlloc(alloc); if (!alloc) t->begin = t->end = 0; else { t->begin = x->begin; t->end = x->end; } d = t; return x; }
void QListData::realloc(int alloc) { Data *x = static_cast<Data *>(::realloc((void*)d, DataHeaderSize + alloc * sizeof(void *))); d = x; d->alloc = alloc; if (!alloc) d->begin = d->end = 0; }
void QListData::realloc_grow(int growth) { realloc(listGrow(d->alloc + growth)); }
void QListData::dispose(Data *x) { free((void*)x); }
void **QListData::append(int n) { int e = d->end; if (e + n > d->alloc) { int b = d->begin; if (b - n >= 2 * d->alloc / 3) { e -= b; memmove((void*)d->array, d->array + b, e * sizeof(void *)); d->begin = 0; } else realloc_grow(n); } d->end = e + n; return d->array + e; }
void **QListData::append() { return append(1); }
void **QListData::append(const QListData &l) { return append(l.d->end - l.d->begin); }
void **QListData::prepend() { return insert(0); }
void **QListData::insert(int i) { int n = d->end - d->begin; if (i < 0) i = 0; if (i > n) i = n; append(1); memmove((void*)(d->array + d->begin + i + 1), d->array + d->begin + i, (n - i) * sizeof(void *)); return d->array + d->begin + i; }
void QListData::remove(int i) { remove(i, 1); }
void QListData::remove(int i, int n) { i += d->begin; memmove((void*)(d->array + i), d->array + i + n, (d->end - i - n) * sizeof(void *)); d->end -= n; }
void QListData::move(int from, int to) { if (from == to) return; from += d->begin; to += d->begin; void *t = d->array[from]; if (from < to) memmove((void*)(d->array + from), d->array + from + 1, (to - from) * sizeof(void *)); else memmove((void*)(d->array + to + 1), d->array + to, (from - to) * sizeof(void *)); d->array[to] = t; }
void **QListData::erase(void **xi) { int i = int(xi - (d->array + d->begin)); remove(i); return d->array + d->begin + i; }

// ---------------------------------------------------------------- QHashData
const QHashData QHashData::shared_null = { 0, 0, Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 16, 0, 0, 0, true, false, 0 };
void *QHashData::allocateNode(int) { return malloc(nodeSize); }
void QHashData::freeNode(void *n) { free(n); }
QHashData *QHashData::detach_helper(void (*node_duplicate)(Node *, void *), void (*)(Node *), int nodeSize, int) {
	QHashData *x = static_cast<QHashData *>(malloc(sizeof(QHashData))); memcpy((void*)x, (const void*)this, sizeof(QHashData)); Node *e = reinterpret_cast<Node *>(x); x->fakeNext = 0; x->buckets = 0; x->ref.initializeOwned(); x->nodeSize = nodeSize; x->sharable = true; x->strictAlignment = false; x->reserved = 0; x->seed = 0;
	if (numBuckets) { x->buckets = new Node *[numBuckets]; for (int i = 0; i < numBuckets; ++i) { Node **nn = &x->buckets[i]; for (Node *o = buckets[i]; o->next; o = o->next) { Node *c = static_cast<Node *>(malloc(nodeSize)); node_duplicate(o, c); c->h = o->h; *nn = c; nn = &c->next; } *nn = e; } }
	return x;
}
void QHashData::free_helper(void (*node_delete)(Node *)) {
	Node *e = reinterpret_cast<Node *>(this); for (int i = 0; i < numBuckets; ++i) { Node *n = buckets[i]; while (n->next && n != e) { Node *nx = n->next; if (node_delete) node_delete(n); free((void*)n); n = nx; } }
	if (numBuckets) delete[] buckets; delete this;
}
QHashData::Node *QHashData::nextNode(Node *node) { union { Node *next; Node *e; QHashData *d; }; next = node->next; if (next->next) return next; int start = (node->h % d->numBuckets) + 1; Node **b = d->buckets + start; for (int n = d->numBuckets - start; n; --n) { if (*b != e) return *b; ++b; } return e; }
QHashData::Node *QHashData::previousNode(Node *node) { union { Node *e; QHashData *d; }; e = node; while (e->next) e = e->next; int start; if (node == e) start = d->numBuckets - 1; else start = node->h % d->numBuckets; Node *sentinel = node; Node **b = d->buckets + start; while (start >= 0) { if (*b != sentinel) { Node *prev = *b; while (prev->next != sentinel) prev = prev->next; return prev; } sentinel = e; --b; --start; } return e; }
void QHashData::rehash(int hint) {
	int want = numBuckets; if (hint < 0 || numBuckets == 0 || size >= numBuckets) { want = 17; while (want <= size || want < (hint > 0 ? 0 : -hint)) want = want * 2 + 1; } if (hint > 0 && want >= numBuckets && numBuckets) { if (size < numBuckets) return; }
	if (want == numBuckets) return; Node *e = reinterpret_cast<Node *>(this); Node **old = buckets; int on = numBuckets; buckets = new Node *[want]; numBuckets = want; for (int i = 0; i < want; ++i) buckets[i] = e;
	for (int i = 0; i < on; ++i) { Node *f = old[i]; while (f != e) { uint h = f->h; Node *last = f; while (last->next != e && last->next->h == h) last = last->next; Node *after = last->next; Node **bn = &buckets[h % want]; while (*bn != e) bn = &(*bn)->next; last->next = *bn; *bn = f; f = after; } }
	if (on) delete[] old;
}

// ---------------------------------------------------------------- QMapDataBase: a plain (unbalanced) tree with Qt's node layout.
const QMapDataBase QMapDataBase::shared_null = { Q_REFCOUNT_INITIALIZE_STATIC, 0, { 0, 0, 0 }, 0 };
const QMapNodeBase *QMapNodeBase::nextNode() const { const QMapNodeBase *n = this; if (n->right) { n = n->right; while (n->left) n = n->left; } else { const QMapNodeBase *y = n->parent(); while (y && n == y->right) { n = y; y = n->parent(); } n = y; } return n; }
const QMapNodeBase *QMapNodeBase::previousNode() const { const QMapNodeBase *n = this; if (n->left) { n = n->left; while (n->right) n = n->right; } else { const QMapNodeBase *y = n->parent(); while (y && n == y->left) { n = y; y = n->parent(); } n = y; } return n; }
QMapDataBase *QMapDataBase::createData() { QMapDataBase *d = new QMapDataBase; d->ref.initializeOwned(); d->size = 0; d->header.p = 0; d->header.left = 0; d->header.right = 0; d->mostLeftNode = &d->header; return d; }
QMapNodeBase *QMapDataBase::createNode(int alloc, int, QMapNodeBase *parent, bool left) { QMapNodeBase *n = static_cast<QMapNodeBase *>(malloc(alloc)); memset((void*)n, 0, alloc); ++size; if (parent) { if (left) { parent->left = n; if (parent == mostLeftNode) mostLeftNode = n; } else parent->right = n; n->setParent(parent); } return n; }
void QMapDataBase::freeTree(QMapNodeBase *root, int) { if (root->left) freeTree(root->left, 0); if (root->right) freeTree(root->right, 0); free((void*)root); }
void QMapDataBase::freeData(QMapDataBase *d) { delete d; }
void QMapDataBase::recalcMostLeftNode() { mostLeftNode = &header; while (mostLeftNode->left) mostLeftNode = mostLeftNode->left; }
void QMapDataBase::freeNodeAndRebalance(QMapNodeBase *) { sx_unmodelled("QMap removal"); }

// ---------------------------------------------------------------- diagnostics are discarded
struct QDebugDummy { int x; };
QDebug QMessageLogger::debug() const { return QDebug((QIODevice *)0); }
QDebug QMessageLogger::warning() const { return QDebug((QIODevice *)0); }
QDebug QMessageLogger::critical() const { return QDebug((QIODevice *)0); }
void QMessageLogger::warning(const char *, ...) const Q_DECL_NOTHROW {}
void QMessageLogger::debug(const char *, ...) const Q_DECL_NOTHROW {}
void QMessageLogger::critical(const char *, ...) const Q_DECL_NOTHROW {}
void QDebug::putString(const QChar *, size_t) {}
void QDebug::putByteArray(const char *, size_t, Latin1Content) {}
void QDebug::putUcs4(uint) {}
class QTextStreamPrivate { int x; };
QTextStream::QTextStream(QIODevice *) {}
QTextStream::QTextStream(QString *, QIODevice::OpenMode) {}
QTextStream::~QTextStream() {}
QDebug::~QDebug() { if (!--stream->ref) delete stream; }
QTextStream &QTextStream::operator<<(const QString &) { return *this; }
QTextStream &QTextStream::operator<<(char) { return *this; }
QTextStream &QTextStream::operator<<(int) { return *this; }
QTextStream &QTextStream::operator<<(uint) { return *this; }
QTextStream &QTextStream::operator<<(long) { return *this; }
QTextStream &QTextStream::operator<<(unsigned long) { return *this; }
QTextStream &QTextStream::operator<<(qlonglong) { return *this; }
QTextStream &QTextStream::operator<<(qulonglong) { return *this; }
QTextStream &QTextStream::operator<<(const char *) { return *this; }
QTextStream &QTextStream::operator<<(const void *) { return *this; }
QTextStream &QTextStream::operator<<(double) { return *this; }
void qt_assert(const char *, const char *, int) Q_DECL_NOTHROW { abort(); }
void qt_assert_x(const char *, const char *, const char *, int) Q_DECL_NOTHROW { abort(); }
void qBadAlloc() { abort(); }
int qt_version_tag = 0;

// ---------------------------------------------------------------- used by no code here so far, but close to what is
QByteArray &QByteArray::insert(int i, int n, char c) { if (i < 0 || n <= 0) return *this; if (i > d->size) { int o = d->size; resize(i); memset(data() + o, 32, size_t(i - o)); } QByteArray r = left(i); r.append(QByteArray(n, c)); r.append(mid(i)); return *this = r; }
static int lastIn(const char *h, int n, const char *s, int m, int from) { int delta = n - m; if (m == 1 && from >= n) from = n - 1; if (from < 0) from = delta; if (from < 0 || from > n) return -1; if (from > delta) from = delta; for (int i = from; i >= 0; --i) if (memcmp(h + i, s, size_t(m)) == 0) return i; return -1; }
int QByteArray::lastIndexOf(const QByteArray &ba, int from) const { if (from < -1) sx_unmodelled("lastIndexOf from the end"); return lastIn(d->data(), d->size, ba.d->data(), ba.d->size, from); }
int QByteArray::lastIndexOf(const char *s, int from) const { if (from < -1) sx_unmodelled("lastIndexOf from the end"); return lastIn(d->data(), d->size, s, qstrlen(s), from); }
int QByteArray::count(const QByteArray &b) const { int n = 0, i = -1; if (b.isEmpty()) return d->size + 1; while ((i = indexOf(b, i + 1)) != -1) ++n; return n; }
int QByteArray::count(const char *s) const { return count(QByteArray(s)); }
QByteArray QByteArray::repeated(int n) const { if (d->size == 0) return *this; QByteArray r; for (int i = 0; i < n; ++i) r.append(*this); return r; }
QByteArray QByteArray::simplified_helper(const QByteArray &a) { QByteArray r; bool gap = false; for (int i = 0; i < a.size(); ++i) { if (isSpaceC(uchar(a.constData()[i]))) { gap = !r.isEmpty(); continue; } if (gap) r.append(' '); gap = false; r.append(a.constData()[i]); } return r; }
QByteArray QByteArray::simplified_helper(QByteArray &a) { return simplified_helper(const_cast<const QByteArray &>(a)); }
short QByteArray::toShort(bool *ok, int base) const { bool k; qlonglong v = parseLL(d->data(), d->size, &k, base); if (k && (v < -32768 || v > 32767)) k = false; if (ok) *ok = k; return k ? short(v) : 0; }
bool QByteArray::isUpper() const { if (isEmpty()) return false; for (int i = 0; i < d->size; ++i) { uchar c = uchar(d->data()[i]); if (c > 127) sx_unmodelled("case of a byte above 127"); if (!(c >= 'A' && c <= 'Z')) return false; } return true; }
bool QByteArray::isLower() const { if (isEmpty()) return false; for (int i = 0; i < d->size; ++i) { uchar c = uchar(d->data()[i]); if (c > 127) sx_unmodelled("case of a byte above 127"); if (!(c >= 'a' && c <= 'z')) return false; } return true; }
QByteArray QByteArray::leftJustified(int w, char f, bool t) const { if (w > d->size) return *this + QByteArray(w - d->size, f); return t ? left(w) : *this; }
QByteArray QByteArray::rightJustified(int w, char f, bool t) const { if (w > d->size) return QByteArray(w - d->size, f) + *this; return t ? left(w) : *this; }
QByteArray &QByteArray::replace(char b, const QByteArray &a) { QByteArray r; for (int i = 0; i < d->size; ++i) if (d->data()[i] == b) r.append(a); else r.append(d->data()[i]); return *this = r; }
QByteArray &QByteArray::replace(int i, int n, const char *a) { return replace(i, n, a, qstrlen(a)); }
QByteArray &QByteArray::replace(const char *b, const QByteArray &a) { return replace(b, qstrlen(b), a.constData(), a.size()); }
QString QString::number(long n, int base) { return QString(QLatin1String(QByteArray::number(qlonglong(n), base))); }
QString QString::number(ulong n, int base) { return QString(QLatin1String(QByteArray::number(qulonglong(n), base))); }
long QString::toLong(bool *ok, int base) const { return toLatin1().toLong(ok, base); }
uint QString::toUInt(bool *ok, int base) const { return toLatin1().toUInt(ok, base); }
short QString::toShort(bool *ok, int base) const { return toLatin1().toShort(ok, base); }
ushort QString::toUShort(bool *ok, int base) const { return toLatin1().toUShort(ok, base); }
QString &QString::remove(QChar c, Qt::CaseSensitivity cs) { if (cs != Qt::CaseSensitive) sx_unmodelled("remove, ignoring case"); QString r; for (int i = 0; i < size(); ++i) if (at(i) != c) r.append(at(i)); return *this = r; }
QString &QString::remove(const QString &t, Qt::CaseSensitivity cs) { return replace(t, QString(), cs); }
QString QString::leftJustified(int w, QChar f, bool t) const { if (w > size()) return *this + QString(w - size(), f); return t ? left(w) : *this; }
QString QString::rightJustified(int w, QChar f, bool t) const { if (w > size()) return QString(w - size(), f) + *this; return t ? left(w) : *this; }
QString QString::repeated(int n) const { QString r; for (int i = 0; i < n; ++i) r.append(*this); return r; }
int QString::count(QChar c, Qt::CaseSensitivity cs) const { if (cs != Qt::CaseSensitive) sx_unmodelled("count, ignoring case"); int n = 0; for (int i = 0; i < size(); ++i) n += at(i) == c; return n; }
int QString::count(const QString &t, Qt::CaseSensitivity cs) const { int n = 0, i = -1; while ((i = indexOf(t, i + 1, cs)) != -1) ++n; return n; }
QStringList QString::split(QChar sep, QString::SplitBehavior b, Qt::CaseSensitivity cs) const { return split(sep, b == QString::SkipEmptyParts ? Qt::SkipEmptyParts : Qt::KeepEmptyParts, cs); }
QStringList QString::split(const QString &sep, Qt::SplitBehavior b, Qt::CaseSensitivity cs) const { if (sep.isEmpty()) sx_unmodelled("split at nothing"); QStringList l; int s = 0; for (;;) { int e = indexOf(sep, s, cs); int to = e < 0 ? size() : e; if (to > s || b == Qt::KeepEmptyParts) l << mid(s, to - s); if (e < 0) break; s = e + sep.size(); } return l; }
QStringList QString::split(const QString &sep, QString::SplitBehavior b, Qt::CaseSensitivity cs) const { return split(sep, b == QString::SkipEmptyParts ? Qt::SkipEmptyParts : Qt::KeepEmptyParts, cs); }
