// QIODevice and the concrete devices: QBuffer, QFile over a virtual file tree, QFileInfo.
#include "qm.h"
#include <QtCore/QIODevice>
#include <QtCore/QBuffer>
#include <QtCore/QFile>
#include <QtCore/QFileInfo>
#include <QtCore/QDir>
#include <QtCore/QStringList>
#include "qm_object.h"
#include "qm_io.h"

// ---------------------------------------------------------------- QIODevice (reads and writes go straight to the device)
#define D (static_cast<QIODevicePrivate *>(d_ptr.data()))
QIODevicePrivate::QIODevicePrivate() : mode(QIODevice::NotOpen), at(0) {}
QIODevicePrivate::~QIODevicePrivate() {}
QIODevice::QIODevice() : QObject(*new QIODevicePrivate, 0) {}
QIODevice::QIODevice(QObject *p) : QObject(*new QIODevicePrivate, p) {}
QIODevice::QIODevice(QIODevicePrivate &dd, QObject *p) : QObject(dd, p) {}
QIODevice::~QIODevice() {}
QIODevice::OpenMode QIODevice::openMode() const { return D->mode; }
void QIODevice::setOpenMode(OpenMode m) { D->mode = m; D->at = 0; }
bool QIODevice::isOpen() const { return D->mode != NotOpen; }
bool QIODevice::isReadable() const { return D->mode & ReadOnly; }
bool QIODevice::isWritable() const { return D->mode & WriteOnly; }
bool QIODevice::isTextModeEnabled() const { return D->mode & Text; }
bool QIODevice::isSequential() const { return false; }
bool QIODevice::open(OpenMode m) { D->mode = m; D->at = (m & Append) ? size() : 0; return true; }
void QIODevice::close() { if (D->mode == NotOpen) return; emit aboutToClose(); D->mode = NotOpen; D->at = 0; D->err = QString(); }
qint64 QIODevice::pos() const { return D->at; }
qint64 QIODevice::size() const { return isSequential() ? bytesAvailable() : qint64(0); }
bool QIODevice::seek(qint64 p) { if (isSequential() || D->mode == NotOpen || p < 0) return false; D->at = p; return true; }
bool QIODevice::atEnd() const { return D->mode == NotOpen || bytesAvailable() == 0; }
bool QIODevice::reset() { return seek(0); }
qint64 QIODevice::bytesAvailable() const { if (isSequential()) return 0; qint64 n = size() - D->at; return n > 0 ? n : 0; }
qint64 QIODevice::bytesToWrite() const { return 0; }
bool QIODevice::canReadLine() const { sx_unmodelled("canReadLine"); return false; }
bool QIODevice::waitForReadyRead(int) { return false; }
bool QIODevice::waitForBytesWritten(int) { return false; }
qint64 QIODevice::readLineData(char *data, qint64 max) { qint64 n = 0, last = 0; char c; while (n < max && (last = read(&c, 1)) == 1) { *data++ = c; ++n; if (c == '\n') break; } if (last != 1 && n == 0) return isSequential() ? last : -1; return n; }
qint64 QIODevice::readLine(char *data, qint64 max) { if (max < 2 || !(D->mode & ReadOnly)) return -1; if (D->mode & Text) sx_unmodelled("text mode"); qint64 n = readLineData(data, max - 1); if (n < 0) { data[0] = 0; return n; } data[n] = 0; return n; }
QString QIODevice::errorString() const { return D->err; }
void QIODevice::setErrorString(const QString &s) { D->err = s; }
qint64 QIODevice::read(char *data, qint64 max) {
	if (max < 0 || !(D->mode & ReadOnly)) return -1; bool seq = isSequential(); if (!max) return 0;
	if (seq) { qint64 r = readData(data, max); return r; }
	qint64 got = 0; for (;;) { qint64 r = readData(data + got, max - got); if (r > 0) { got += r; D->at += r; } else return got ? got : r; if (got >= max) return got; if (r < max - got) return got; }
}
QByteArray QIODevice::read(qint64 max) { QByteArray r; if (max < 0 || !(D->mode & ReadOnly)) return r; if (!max) return r; qint64 cap = max; qint64 av = isSequential() ? max : qMin(max, size() - pos() > 0 ? size() - pos() : qint64(0)); (void)cap; if (max > (1 << 20)) { if (isSequential()) av = qMin(max, bytesAvailable()); } r.resize(int(av)); qint64 n = av ? read(r.data(), av) : 0; r.resize(n > 0 ? int(n) : 0); return r; }
QByteArray QIODevice::readAll() { QByteArray r; if (!(D->mode & ReadOnly)) return r; for (;;) { qint64 av = isSequential() ? qMax(bytesAvailable(), qint64(64)) : size() - pos(); if (av <= 0) break; int o = r.size(); r.resize(o + int(av)); qint64 n = read(r.data() + o, av); r.resize(o + (n > 0 ? int(n) : 0)); if (n <= 0) break; } return r; }
qint64 QIODevice::write(const char *data, qint64 n) { if (n < 0 || !(D->mode & WriteOnly)) return -1; qint64 r = writeData(data, n); if (!isSequential() && r > 0) D->at += r; return r; }
qint64 QIODevice::write(const char *s) { return write(s, qint64(strlen(s))); }
qint64 QIODevice::skip(qint64 max) { QByteArray r = read(max); return r.size(); }
bool QIODevice::getChar(char *c) { char x; return read(c ? c : &x, 1) == 1; }
bool QIODevice::putChar(char c) { return write(&c, 1) == 1; }
#undef D

// ---------------------------------------------------------------- QBuffer
class QBufferPrivate : public QIODevicePrivate { public: QByteArray own, *buf; QBufferPrivate() : buf(0) {} };
#define D (static_cast<QBufferPrivate *>(d_ptr.data()))
QBuffer::QBuffer(QObject *p) : QIODevice(*new QBufferPrivate, p) { D->buf = &D->own; }
QBuffer::QBuffer(QByteArray *b, QObject *p) : QIODevice(*new QBufferPrivate, p) { D->buf = b ? b : &D->own; }
QBuffer::~QBuffer() {}
QByteArray &QBuffer::buffer() { return *D->buf; }
const QByteArray &QBuffer::buffer() const { return *D->buf; }
const QByteArray &QBuffer::data() const { return *D->buf; }
void QBuffer::setBuffer(QByteArray *b) { D->buf = b ? b : &D->own; }
void QBuffer::setData(const QByteArray &b) { *D->buf = b; }
bool QBuffer::open(OpenMode m) { if ((m & (Append | Truncate)) != 0) m |= WriteOnly; if (!(m & (ReadOnly | WriteOnly))) return false; if (m & Truncate) D->buf->resize(0); return QIODevice::open(m | Unbuffered); }
void QBuffer::close() { QIODevice::close(); }
qint64 QBuffer::pos() const { return QIODevice::pos(); }
qint64 QBuffer::size() const { return D->buf->size(); }
bool QBuffer::seek(qint64 p) { return QIODevice::seek(p); }
bool QBuffer::atEnd() const { return QIODevice::atEnd(); }
bool QBuffer::canReadLine() const { return false; }
void QBuffer::connectNotify(const QMetaMethod &) {}
void QBuffer::disconnectNotify(const QMetaMethod &) {}
qint64 QBuffer::readData(char *d, qint64 n) { qint64 av = D->buf->size() - pos(); if (n > av) n = av; if (n <= 0) return 0; memcpy(d, D->buf->constData() + pos(), size_t(n)); return n; }
qint64 QBuffer::writeData(const char *d, qint64 n) { qint64 need = pos() + n; if (need > D->buf->size()) D->buf->resize(int(need)); memcpy(D->buf->data() + pos(), d, size_t(n)); return n; }
#undef D

// ---------------------------------------------------------------- the virtual file tree
struct FsNode { char name[24]; int nameLen, kind; FsNode *parent, *child, *sib, *target; QByteArray data; };
enum { FsDir = 1, FsFile, FsLink };
static FsNode *fsRoot;
static FsNode *mk(FsNode *parent, const char *n, int len, int kind) { FsNode *x = new FsNode; memset((void*)x->name, 0, sizeof x->name); memcpy(x->name, n, size_t(len)); x->nameLen = len; x->kind = kind; x->parent = parent; x->child = 0; x->sib = 0; x->target = 0; if (parent) { x->sib = parent->child; parent->child = x; } return x; }
static FsNode *root() { if (!fsRoot) { fsRoot = mk(0, "", 0, FsDir); fsRoot->parent = fsRoot; mk(fsRoot, "sx", 2, FsDir); } return fsRoot; }
static FsNode *place(const char *path, int kind) { FsNode *at = root()->child; const char *p = path; for (;;) { const char *e = p; while (*e && *e != '/') ++e; FsNode *c = at->child; while (c && !(c->nameLen == e - p && !memcmp(c->name, p, size_t(e - p)))) c = c->sib; if (!*e) return c ? c : mk(at, p, int(e - p), kind); if (!c) c = mk(at, p, int(e - p), FsDir); at = c; p = e + 1; } }
static FsNode *follow(FsNode *n, int depth) { while (n && n->kind == FsLink) { if (depth++ > 8) return 0; n = n->target; } return n; }
static FsNode *resolvePath(const QString &path) {
	const QChar *s = path.constData(); int n = path.size(); if (!n) return 0; FsNode *at = root(); if (s[0] != QLatin1Char('/')) at = root()->child; // the working directory is /sx
	int i = 0;
	while (i < n) {
		if (s[i] == QLatin1Char('/')) { if (at->kind != FsDir) return 0; ++i; continue; }
		int e = i; while (e < n && s[e] != QLatin1Char('/')) ++e; int len = e - i; if (at->kind != FsDir) return 0;
		if (len == 1 && s[i] == QLatin1Char('.')) {} else if (len == 2 && s[i] == QLatin1Char('.') && s[i+1] == QLatin1Char('.')) at = at->parent;
		else { FsNode *c = at->child; for (; c; c = c->sib) { if (c->nameLen != len) continue; bool eq = true; for (int k = 0; k < len && eq; ++k) eq = s[i + k].unicode() == uchar(c->name[k]); if (eq) break; } c = follow(c, 0); if (!c) return 0; at = c; }
		i = e;
	}
	return at;
}
static QString pathOf(FsNode *n) { if (n == fsRoot) return QString(QLatin1Char('/')); QString r; while (n != fsRoot) { QString t(QLatin1Char('/')); t += QString::fromLatin1(n->name, n->nameLen); t += r; r = t; n = n->parent; } return r; }
extern "C" {
const char *sx_fs_root() { root(); return "/sx"; }
void sx_fs_mkdir(const char *p) { place(p, FsDir); }
void sx_fs_file(const char *p, const char *d, long n) { FsNode *f = place(p, FsFile); f->kind = FsFile; f->data = QByteArray(d, int(n)); }
void sx_fs_link(const char *p, const char *target) { FsNode *l = place(p, FsLink); l->kind = FsLink; l->target = place(target, FsDir); }
}

// ---------------------------------------------------------------- QFileInfo
class QFileInfoPrivate : public QSharedData { public: QString path; };
QFileInfo::QFileInfo() : d_ptr(new QFileInfoPrivate) {}
QFileInfo::QFileInfo(const QString &f) : d_ptr(new QFileInfoPrivate) { d_ptr->path = f; }
QFileInfo::QFileInfo(const QFileInfo &o) : d_ptr(o.d_ptr) {}
QFileInfo::QFileInfo(const QFile &f) : d_ptr(new QFileInfoPrivate) { d_ptr->path = f.fileName(); }
QFileInfo &QFileInfo::operator=(const QFileInfo &o) { d_ptr = o.d_ptr; return *this; }
QFileInfo::~QFileInfo() {}
QFileInfoPrivate *QFileInfo::d_func() { return d_ptr.data(); }
#define N resolvePath(d_ptr.constData()->path)
bool QFileInfo::exists() const { return N != 0; }
bool QFileInfo::exists(const QString &f) { return resolvePath(f) != 0; }
QString QFileInfo::filePath() const { return d_ptr.constData()->path; }
QString QFileInfo::canonicalFilePath() const { FsNode *n = N; return n ? pathOf(n) : QString(); }
QString QFileInfo::absoluteFilePath() const { QString p = d_ptr.constData()->path; if (!p.isEmpty() && p.at(0) == QLatin1Char('/')) { for (int i = 0; i < p.size(); ++i) if (p.at(i) == QLatin1Char('.') || (i && p.at(i) == QLatin1Char('/') && p.at(i-1) == QLatin1Char('/'))) sx_unmodelled("absoluteFilePath"); return p; } sx_unmodelled("absoluteFilePath of a relative path"); return p; }
bool QFileInfo::isFile() const { FsNode *n = N; return n && n->kind == FsFile; }
bool QFileInfo::isDir() const { FsNode *n = N; return n && n->kind == FsDir; }
bool QFileInfo::isReadable() const { return N != 0; }
qint64 QFileInfo::size() const { FsNode *n = N; return n ? (n->kind == FsFile ? n->data.size() : 4096) : 0; }
QString QFileInfo::fileName() const { const QString &p = d_ptr.constData()->path; int i = p.size(); while (i > 0 && p.at(i - 1) != QLatin1Char('/')) --i; return p.mid(i); }
QString QFileInfo::suffix() const { QString f = fileName(); int i = f.lastIndexOf(QLatin1Char('.')); return i < 0 ? QString() : f.mid(i + 1); }
bool QFileInfo::isSymLink() const { sx_unmodelled("isSymLink"); return false; }
#undef N

// ---------------------------------------------------------------- QFile (read only)
class QFileDevicePrivate : public QIODevicePrivate { public: QString name; FsNode *node; QFileDevicePrivate() : node(0) {} };
#define D (static_cast<QFileDevicePrivate *>(d_ptr.data()))
QFileDevice::QFileDevice(QFileDevicePrivate &dd, QObject *p) : QIODevice(dd, p) {}
QFileDevice::QFileDevice(QObject *p) : QIODevice(*new QFileDevicePrivate, p) {}
QFileDevice::~QFileDevice() {}
void QFileDevice::close() { QIODevice::close(); D->node = 0; }
bool QFileDevice::isSequential() const { return false; }
QString QFileDevice::fileName() const { return D->name; }
qint64 QFileDevice::pos() const { return QIODevice::pos(); }
bool QFileDevice::seek(qint64 o) { return QIODevice::seek(o); }
bool QFileDevice::atEnd() const { return !isOpen() || pos() >= size(); }
qint64 QFileDevice::size() const { return D->node ? D->node->data.size() : 0; }
bool QFileDevice::flush() { return true; }
qint64 QFileDevice::readData(char *d, qint64 n) { if (!D->node) return -1; qint64 av = D->node->data.size() - pos(); if (n > av) n = av; if (n <= 0) return 0; memcpy(d, D->node->data.constData() + pos(), size_t(n)); return n; }
qint64 QFileDevice::writeData(const char *, qint64) { sx_unmodelled("file write"); return -1; }
qint64 QFileDevice::readLineData(char *, qint64) { sx_unmodelled("readLine"); return -1; }
QFile::QFile() : QFileDevice((QObject *)0) {}
QFile::QFile(QObject *p) : QFileDevice(p) {}
QFile::QFile(const QString &n) : QFileDevice((QObject *)0) { D->name = n; }
QFile::QFile(const QString &n, QObject *p) : QFileDevice(p) { D->name = n; }
QFile::~QFile() {}
QString QFile::fileName() const { return D->name; }
void QFile::setFileName(const QString &n) { D->name = n; }
bool QFile::exists() const { return resolvePath(D->name) != 0; }
bool QFile::exists(const QString &f) { return resolvePath(f) != 0; }
bool QFile::open(OpenMode m) { if (m & WriteOnly) sx_unmodelled("opening a file for writing"); FsNode *n = resolvePath(D->name); if (!n || n->kind != FsFile) return false; D->node = n; return QIODevice::open(m); }
qint64 QFile::size() const { if (D->node) return D->node->data.size(); FsNode *n = resolvePath(D->name); return n && n->kind == FsFile ? n->data.size() : 0; }
#undef D

// ---------------------------------------------------------------- QDir (paths only)
class QDirPrivate : public QSharedData { public: QString path; };
QDir::QDir(const QString &p) : d_ptr(new QDirPrivate) { d_ptr->path = p.isEmpty() ? QString(QLatin1Char('.')) : p; }
QDir::QDir(const QDir &o) : d_ptr(o.d_ptr) {}
QDir &QDir::operator=(const QDir &o) { d_ptr = o.d_ptr; return *this; }
QDir::~QDir() {}
QString QDir::path() const { return d_ptr.constData()->path; }
QString QDir::cleanPath(const QString &p) {
	int n = p.size(); if (!n) return p; bool absolute = p.at(0) == QLatin1Char('/'); QStringList parts; int i = 0;
	while (i < n) { if (p.at(i) == QLatin1Char('/')) { ++i; continue; } int e = i; while (e < n && p.at(e) != QLatin1Char('/')) ++e; QString c = p.mid(i, e - i); i = e;
		if (c.size() == 1 && c.at(0) == QLatin1Char('.')) continue; bool up = c.size() == 2 && c.at(0) == QLatin1Char('.') && c.at(1) == QLatin1Char('.');
		if (up && !parts.isEmpty() && !(parts.last().size() == 2 && parts.last().at(0) == QLatin1Char('.') && parts.last().at(1) == QLatin1Char('.'))) { parts.removeLast(); continue; } if (up && absolute) continue; parts.append(c); }
	QString r; for (int k = 0; k < parts.size(); ++k) { if (k || absolute) r += QLatin1Char('/'); r += parts.at(k); } if (r.isEmpty()) r = QString(absolute ? QLatin1Char('/') : QLatin1Char('.')); return r;
}
bool QDir::isRelativePath(const QString &p) { return p.isEmpty() || p.at(0) != QLatin1Char('/'); }
QString QDir::filePath(const QString &f) const { if (!isRelativePath(f)) return f; const QString &p = d_ptr.constData()->path; QString r = p; if (!f.isEmpty() && !r.endsWith(QLatin1Char('/'))) r += QLatin1Char('/'); r += f; return r; }
QString QDir::absoluteFilePath(const QString &f) const { if (isRelativePath(f) && isRelativePath(d_ptr.constData()->path)) sx_unmodelled("a relative folder"); return filePath(f); }
QString QDir::canonicalPath() const { return QFileInfo(d_ptr.constData()->path).canonicalFilePath(); }
QString QDir::absolutePath() const { if (isRelativePath(d_ptr.constData()->path)) sx_unmodelled("a relative folder"); return cleanPath(d_ptr.constData()->path); }
bool QDir::exists() const { return QFileInfo(d_ptr.constData()->path).isDir(); }
bool QDir::exists(const QString &f) const { return QFileInfo(filePath(f)).exists(); }
