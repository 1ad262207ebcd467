// QtNetwork: sockets and servers are shells (the harness supplies the transport), requests, replies, managers, cookies.
#include "qm.h"
#include <QtCore/QPointer>
#include <QtNetwork/QAbstractSocket>
#include <QtNetwork/QTcpSocket>
#include <QtNetwork/QSslSocket>
#include <QtNetwork/QLocalSocket>
#include <QtNetwork/QTcpServer>
#include <QtNetwork/QLocalServer>
#include <QtNetwork/QHostAddress>
#include <QtNetwork/QNetworkRequest>
#include <QtNetwork/QNetworkReply>
#include <QtNetwork/QNetworkAccessManager>
#include <QtNetwork/QNetworkCookie>
#include <QtNetwork/QNetworkCookieJar>
#include <QtNetwork/QSslKey>
#include <QtNetwork/QSslCertificate>
#include <QtNetwork/QSslError>
#include <QtNetwork/QSslConfiguration>
#include "qm_object.h"
#include "qm_io.h"

// ---------------------------------------------------------------- QHostAddress: its text
class QHostAddressPrivate : public QSharedData { public: QString text; };
QHostAddress::QHostAddress() : d(new QHostAddressPrivate) {}
QHostAddress::QHostAddress(const QString &a) : d(new QHostAddressPrivate) { d->text = a; }
QHostAddress::QHostAddress(const QHostAddress &o) : d(o.d) {}
QHostAddress::QHostAddress(SpecialAddress a) : d(new QHostAddressPrivate) { switch (a) { case LocalHost: d->text = "127.0.0.1"; break; case Any: d->text = "0.0.0.0"; break; case AnyIPv4: d->text = "0.0.0.0"; break; default: break; } }
QHostAddress::~QHostAddress() {}
QHostAddress &QHostAddress::operator=(const QHostAddress &o) { d = o.d; return *this; }
bool QHostAddress::operator==(const QHostAddress &o) const { return d->text == o.d->text; }
bool QHostAddress::isNull() const { return d->text.isEmpty(); }
QString QHostAddress::toString() const { return d->text; }

// ---------------------------------------------------------------- sockets
class QAbstractSocketPrivate : public QIODevicePrivate { public: QAbstractSocket::SocketState state; QAbstractSocket::SocketError error; QHostAddress peer; quint16 peerPort; qint64 rbs; QAbstractSocketPrivate() : state(QAbstractSocket::UnconnectedState), error(QAbstractSocket::UnknownSocketError), peerPort(0), rbs(0) {} };
#define D (static_cast<QAbstractSocketPrivate *>(d_ptr.data()))
QAbstractSocket::QAbstractSocket(SocketType, QObject *p) : QIODevice(*new QAbstractSocketPrivate, p) { connect(this, SIGNAL(errorOccurred(QAbstractSocket::SocketError)), this, SIGNAL(error(QAbstractSocket::SocketError))); }
QAbstractSocket::QAbstractSocket(SocketType, QAbstractSocketPrivate &dd, QObject *p) : QIODevice(dd, p) {}
QAbstractSocket::~QAbstractSocket() {}
void QAbstractSocket::resume() {}
void QAbstractSocket::connectToHost(const QString &, quint16, OpenMode, NetworkLayerProtocol) { sx_unmodelled("real socket"); }
void QAbstractSocket::connectToHost(const QHostAddress &, quint16, OpenMode) { sx_unmodelled("real socket"); }
void QAbstractSocket::disconnectFromHost() { sx_unmodelled("real socket"); }
qint64 QAbstractSocket::bytesAvailable() const { return QIODevice::bytesAvailable(); }
qint64 QAbstractSocket::bytesToWrite() const { return 0; }
bool QAbstractSocket::canReadLine() const { return false; }
void QAbstractSocket::setReadBufferSize(qint64 n) { D->rbs = n; }
qint64 QAbstractSocket::readBufferSize() const { return D->rbs; }
qintptr QAbstractSocket::socketDescriptor() const { return -1; }
bool QAbstractSocket::setSocketDescriptor(qintptr, SocketState, OpenMode) { sx_unmodelled("real socket"); return false; }
void QAbstractSocket::setSocketOption(SocketOption, const QVariant &) {}
QVariant QAbstractSocket::socketOption(SocketOption) { return QVariant(); }
void QAbstractSocket::close() { QIODevice::close(); if (D->state != UnconnectedState) disconnectFromHost(); }
bool QAbstractSocket::isSequential() const { return true; }
bool QAbstractSocket::atEnd() const { return bytesAvailable() == 0; }
bool QAbstractSocket::waitForConnected(int) { return false; }
bool QAbstractSocket::waitForReadyRead(int) { return false; }
bool QAbstractSocket::waitForBytesWritten(int) { return false; }
bool QAbstractSocket::waitForDisconnected(int) { return false; }
qint64 QAbstractSocket::readData(char *, qint64) { return -1; }
qint64 QAbstractSocket::readLineData(char *, qint64) { return -1; }
qint64 QAbstractSocket::writeData(const char *, qint64) { return -1; }
void QAbstractSocket::abort() { if (D->state == UnconnectedState) return; close(); }
bool QAbstractSocket::flush() { return false; }
QAbstractSocket::SocketState QAbstractSocket::state() const { return D->state; }
QAbstractSocket::SocketError QAbstractSocket::error() const { return D->error; }
QHostAddress QAbstractSocket::peerAddress() const { return D->peer; }
quint16 QAbstractSocket::peerPort() const { return D->peerPort; }
bool QAbstractSocket::isValid() const { return D->state == ConnectedState; }
void QAbstractSocket::setSocketState(SocketState s) { D->state = s; }
void QAbstractSocket::setSocketError(SocketError e) { D->error = e; }
void QAbstractSocket::setPeerAddress(const QHostAddress &a) { D->peer = a; }
void QAbstractSocket::setPeerPort(quint16 p) { D->peerPort = p; }
#undef D
QTcpSocket::QTcpSocket(QObject *p) : QAbstractSocket(TcpSocket, p) {}
QTcpSocket::~QTcpSocket() {}
QSslSocket::QSslSocket(QObject *p) : QTcpSocket(p) {}
QSslSocket::~QSslSocket() {}
void QSslSocket::resume() {}
bool QSslSocket::setSocketDescriptor(qintptr s, SocketState a, OpenMode b) { return QAbstractSocket::setSocketDescriptor(s, a, b); }
void QSslSocket::connectToHost(const QString &h, quint16 p, OpenMode m, NetworkLayerProtocol l) { QAbstractSocket::connectToHost(h, p, m, l); }
void QSslSocket::disconnectFromHost() { QAbstractSocket::disconnectFromHost(); }
void QSslSocket::setSocketOption(QAbstractSocket::SocketOption, const QVariant &) {}
QVariant QSslSocket::socketOption(QAbstractSocket::SocketOption) { return QVariant(); }
qint64 QSslSocket::bytesAvailable() const { return 0; }
qint64 QSslSocket::bytesToWrite() const { return 0; }
bool QSslSocket::canReadLine() const { return false; }
void QSslSocket::close() { QAbstractSocket::close(); }
bool QSslSocket::atEnd() const { return true; }
void QSslSocket::setReadBufferSize(qint64 n) { QAbstractSocket::setReadBufferSize(n); }
bool QSslSocket::waitForConnected(int) { return false; }
bool QSslSocket::waitForReadyRead(int) { return false; }
bool QSslSocket::waitForBytesWritten(int) { return false; }
bool QSslSocket::waitForDisconnected(int) { return false; }
qint64 QSslSocket::readData(char *, qint64) { return -1; }
qint64 QSslSocket::writeData(const char *, qint64) { return -1; }
void QSslSocket::setPrivateKey(const QSslKey &) { sx_unmodelled("real TLS socket"); }
void QSslSocket::setLocalCertificate(const QSslCertificate &) { sx_unmodelled("real TLS socket"); }
void QSslSocket::startServerEncryption() { sx_unmodelled("real TLS socket"); }
class QLocalSocketPrivate : public QIODevicePrivate {};
QLocalSocket::QLocalSocket(QObject *p) : QIODevice(*new QLocalSocketPrivate, p) {}
QLocalSocket::~QLocalSocket() {}
bool QLocalSocket::isSequential() const { return true; }
qint64 QLocalSocket::bytesAvailable() const { return QIODevice::bytesAvailable(); }
qint64 QLocalSocket::bytesToWrite() const { return 0; }
bool QLocalSocket::canReadLine() const { return false; }
bool QLocalSocket::open(OpenMode m) { return QIODevice::open(m); }
void QLocalSocket::close() { QIODevice::close(); }
bool QLocalSocket::waitForBytesWritten(int) { return false; }
bool QLocalSocket::waitForReadyRead(int) { return false; }
qint64 QLocalSocket::readData(char *, qint64) { return -1; }
qint64 QLocalSocket::writeData(const char *, qint64) { return -1; }
bool QLocalSocket::flush() { return false; }

// ---------------------------------------------------------------- servers
class QTcpServerPrivate : public QObjectPrivate { public: QList<QTcpSocket *> pending; bool listening; QTcpServerPrivate() : listening(false) {} };
#define D (static_cast<QTcpServerPrivate *>(d_ptr.data()))
QTcpServer::QTcpServer(QObject *p) : QObject(*new QTcpServerPrivate, p) {}
QTcpServer::~QTcpServer() {}
void QTcpServer::setMaxPendingConnections(int) {}
bool QTcpServer::listen(const QHostAddress &, quint16) { D->listening = true; return true; } // connections come from the harness only
bool QTcpServer::isListening() const { return D->listening; }
quint16 QTcpServer::serverPort() const { return 0; }
QHostAddress QTcpServer::serverAddress() const { return QHostAddress(); }
QString QTcpServer::errorString() const { return QString(); }
bool QTcpServer::hasPendingConnections() const { return !D->pending.isEmpty(); }
QTcpSocket *QTcpServer::nextPendingConnection() { if (D->pending.isEmpty()) return 0; return D->pending.takeFirst(); }
void QTcpServer::addPendingConnection(QTcpSocket *s) { D->pending.append(s); }
void QTcpServer::incomingConnection(qintptr) { sx_unmodelled("real listener"); }
void QTcpServer::close() { D->listening = false; }
#undef D
QLocalServer::QLocalServer(QObject *p) : QObject(p) {}
QLocalServer::~QLocalServer() {}
void QLocalServer::setMaxPendingConnections(int) {}
bool QLocalServer::hasPendingConnections() const { return false; }
QLocalSocket *QLocalServer::nextPendingConnection() { return 0; }
bool QLocalServer::listen(const QString &) { sx_unmodelled("real listener"); return false; }
QString QLocalServer::errorString() const { return QString(); }
void QLocalServer::incomingConnection(quintptr) { sx_unmodelled("real listener"); }
QLocalServer::SocketOptions QLocalServer::socketOptions() const { return NoOptions; }
void QLocalServer::setSocketOptions(SocketOptions) {}

// ---------------------------------------------------------------- raw headers, requests, replies
typedef QPair<QByteArray, QByteArray> RawPair; typedef QList<RawPair> RawList;
static void rawSet(RawList &l, const QByteArray &k, const QByteArray &v) { if (k.isEmpty()) return; for (int i = 0; i < l.size();) if (l.at(i).first.size() == k.size() && qstricmp(l.at(i).first.constData(), k.constData()) == 0) l.removeAt(i); else ++i; if (v.isNull()) return; RawPair p; p.first = k; p.second = v; l.append(p); }
static QByteArray rawGet(const RawList &l, const QByteArray &k) { for (int i = 0; i < l.size(); ++i) if (l.at(i).first.size() == k.size() && qstricmp(l.at(i).first.constData(), k.constData()) == 0) return l.at(i).second; return QByteArray(); }
struct Attr { int code; QVariant v; };
class QNetworkRequestPrivate : public QSharedData { public: QUrl url; RawList raw; QList<Attr> attrs; };
static QVariant attrGet(const QList<Attr> &l, int code, const QVariant &def) { for (int i = 0; i < l.size(); ++i) if (l.at(i).code == code) return l.at(i).v; return def; }
static void attrSet(QList<Attr> &l, int code, const QVariant &v) { for (int i = 0; i < l.size(); ++i) if (l.at(i).code == code) { l.removeAt(i); break; } Attr a; a.code = code; a.v = v; l.append(a); }
QNetworkRequest::QNetworkRequest() : d(new QNetworkRequestPrivate) {}
QNetworkRequest::QNetworkRequest(const QUrl &u) : d(new QNetworkRequestPrivate) { d->url = u; }
QNetworkRequest::QNetworkRequest(const QNetworkRequest &o) : d(o.d) {}
QNetworkRequest::~QNetworkRequest() {}
QNetworkRequest &QNetworkRequest::operator=(const QNetworkRequest &o) { d = o.d; return *this; }
QUrl QNetworkRequest::url() const { return d->url; }
void QNetworkRequest::setUrl(const QUrl &u) { d->url = u; }
bool QNetworkRequest::hasRawHeader(const QByteArray &k) const { const RawList &l = d->raw; for (int i = 0; i < l.size(); ++i) if (l.at(i).first.size() == k.size() && qstricmp(l.at(i).first.constData(), k.constData()) == 0) return true; return false; }
QByteArray QNetworkRequest::rawHeader(const QByteArray &k) const { return rawGet(d->raw, k); }
QList<QByteArray> QNetworkRequest::rawHeaderList() const { QList<QByteArray> r; for (int i = 0; i < d->raw.size(); ++i) r << d->raw.at(i).first; return r; }
void QNetworkRequest::setRawHeader(const QByteArray &k, const QByteArray &v) { rawSet(d->raw, k, v); }
QVariant QNetworkRequest::attribute(Attribute a, const QVariant &def) const { return attrGet(d->attrs, a, def); }
void QNetworkRequest::setAttribute(Attribute a, const QVariant &v) { attrSet(d->attrs, a, v); }
void QNetworkRequest::setHeader(KnownHeaders h, const QVariant &v) { if (h == ContentTypeHeader) rawSet(d->raw, "Content-Type", v.toByteArray()); else sx_unmodelled("cooked request header"); }

class QNetworkReplyPrivate : public QIODevicePrivate { public: QUrl url; QNetworkRequest req; QNetworkAccessManager::Operation op; RawList raw; QList<Attr> attrs; QNetworkReply::NetworkError err; bool fin; QPointer<QNetworkAccessManager> nam; qint64 rbs; QNetworkReplyPrivate() : op(QNetworkAccessManager::UnknownOperation), err(QNetworkReply::NoError), fin(false), rbs(0) {} };
#define D (static_cast<QNetworkReplyPrivate *>(d_ptr.data()))
QNetworkReply::QNetworkReply(QObject *p) : QIODevice(*new QNetworkReplyPrivate, p) {}
QNetworkReply::~QNetworkReply() {}
void QNetworkReply::close() { QIODevice::close(); }
bool QNetworkReply::isSequential() const { return true; }
qint64 QNetworkReply::readBufferSize() const { return D->rbs; }
void QNetworkReply::setReadBufferSize(qint64 n) { D->rbs = n; }
QNetworkAccessManager *QNetworkReply::manager() const { return D->nam.data(); }
QNetworkAccessManager::Operation QNetworkReply::operation() const { return D->op; }
QNetworkRequest QNetworkReply::request() const { return D->req; }
QNetworkReply::NetworkError QNetworkReply::error() const { return D->err; }
bool QNetworkReply::isFinished() const { return D->fin; }
bool QNetworkReply::isRunning() const { return !D->fin; }
QUrl QNetworkReply::url() const { return D->url; }
bool QNetworkReply::hasRawHeader(const QByteArray &k) const { const RawList &l = D->raw; for (int i = 0; i < l.size(); ++i) if (l.at(i).first.size() == k.size() && qstricmp(l.at(i).first.constData(), k.constData()) == 0) return true; return false; }
QList<QByteArray> QNetworkReply::rawHeaderList() const { QList<QByteArray> r; for (int i = 0; i < D->raw.size(); ++i) r << D->raw.at(i).first; return r; }
QByteArray QNetworkReply::rawHeader(const QByteArray &k) const { return rawGet(D->raw, k); }
const QList<QNetworkReply::RawHeaderPair> &QNetworkReply::rawHeaderPairs() const { return D->raw; }
QVariant QNetworkReply::attribute(QNetworkRequest::Attribute a) const { return attrGet(D->attrs, a, QVariant()); }
void QNetworkReply::setAttribute(QNetworkRequest::Attribute a, const QVariant &v) { attrSet(D->attrs, a, v); }
void QNetworkReply::ignoreSslErrors() {}
qint64 QNetworkReply::writeData(const char *, qint64) { return -1; }
void QNetworkReply::setOperation(QNetworkAccessManager::Operation o) { D->op = o; }
void QNetworkReply::setRequest(const QNetworkRequest &r) { D->req = r; }
void QNetworkReply::setError(NetworkError e, const QString &s) { D->err = e; setErrorString(s); }
void QNetworkReply::setFinished(bool f) { D->fin = f; }
void QNetworkReply::setUrl(const QUrl &u) { D->url = u; }
void QNetworkReply::setHeader(QNetworkRequest::KnownHeaders, const QVariant &) { sx_unmodelled("cooked reply header"); }
void QNetworkReply::setRawHeader(const QByteArray &k, const QByteArray &v) { rawSet(D->raw, k, v); }
void QNetworkReply::sslConfigurationImplementation(QSslConfiguration &) const {}
void QNetworkReply::setSslConfigurationImplementation(const QSslConfiguration &) {}
void QNetworkReply::ignoreSslErrorsImplementation(const QList<QSslError> &) {}
#undef D

// ---------------------------------------------------------------- manager and cookies
class QNetworkAccessManagerPrivate : public QObjectPrivate { public: QNetworkCookieJar *jar; QNetworkAccessManagerPrivate() : jar(0) {} };
#define D (static_cast<QNetworkAccessManagerPrivate *>(d_ptr.data()))
QNetworkAccessManager::QNetworkAccessManager(QObject *p) : QObject(*new QNetworkAccessManagerPrivate, p) {}
QNetworkAccessManager::~QNetworkAccessManager() { for (;;) { QNetworkReply *r = 0; const QObjectList &c = children(); for (int i = 0; i < c.size(); ++i) if ((r = qobject_cast<QNetworkReply *>(c.at(i)))) break; if (!r) break; delete r; } if (D->jar && D->jar->parent() == this) delete D->jar; }
QNetworkCookieJar *QNetworkAccessManager::cookieJar() const { if (!D->jar) { const_cast<QNetworkAccessManagerPrivate *>(D)->jar = new QNetworkCookieJar(const_cast<QNetworkAccessManager *>(this)); } return D->jar; }
void QNetworkAccessManager::setCookieJar(QNetworkCookieJar *j) { if (D->jar != j) { if (D->jar && D->jar->parent() == this) delete D->jar; D->jar = j; if (j) j->setParent(this); } }
QNetworkReply *QNetworkAccessManager::createRequest(Operation, const QNetworkRequest &, QIODevice *) { sx_unmodelled("Qt's own network requests"); return 0; }
static QNetworkReply *post(QNetworkAccessManager *m, QNetworkReply *r) { if (r) static_cast<QNetworkReplyPrivate *>(r->d_ptr.data())->nam = m; return r; }
QNetworkReply *QNetworkAccessManager::head(const QNetworkRequest &r) { return ::post(this, createRequest(HeadOperation, r, 0)); }
QNetworkReply *QNetworkAccessManager::get(const QNetworkRequest &r) { return ::post(this, createRequest(GetOperation, r, 0)); }
QNetworkReply *QNetworkAccessManager::post(const QNetworkRequest &r, QIODevice *d) { return ::post(this, createRequest(PostOperation, r, d)); }
QNetworkReply *QNetworkAccessManager::put(const QNetworkRequest &r, QIODevice *d) { return ::post(this, createRequest(PutOperation, r, d)); }
QNetworkReply *QNetworkAccessManager::deleteResource(const QNetworkRequest &r) { return ::post(this, createRequest(DeleteOperation, r, 0)); }
QNetworkReply *QNetworkAccessManager::sendCustomRequest(const QNetworkRequest &r, const QByteArray &verb, QIODevice *d) { QNetworkRequest n(r); n.setAttribute(QNetworkRequest::CustomVerbAttribute, QVariant(verb)); return ::post(this, createRequest(CustomOperation, n, d)); }
QStringList QNetworkAccessManager::supportedSchemesImplementation() const { return QStringList(); }
#undef D
QNetworkCookieJar::QNetworkCookieJar(QObject *p) : QObject(p) {}
QNetworkCookieJar::~QNetworkCookieJar() {}
QList<QNetworkCookie> QNetworkCookieJar::cookiesForUrl(const QUrl &) const { return QList<QNetworkCookie>(); }
bool QNetworkCookieJar::setCookiesFromUrl(const QList<QNetworkCookie> &l, const QUrl &) { if (!l.isEmpty()) sx_unmodelled("cookie jar"); return false; }
bool QNetworkCookieJar::insertCookie(const QNetworkCookie &) { sx_unmodelled("cookie jar"); return false; }
bool QNetworkCookieJar::updateCookie(const QNetworkCookie &) { sx_unmodelled("cookie jar"); return false; }
bool QNetworkCookieJar::deleteCookie(const QNetworkCookie &) { sx_unmodelled("cookie jar"); return false; }
bool QNetworkCookieJar::validateCookie(const QNetworkCookie &, const QUrl &) const { return false; }
class QNetworkCookiePrivate : public QSharedData { public: QByteArray name, value; };
QNetworkCookie::QNetworkCookie(const QByteArray &n, const QByteArray &v) : d(new QNetworkCookiePrivate) { d->name = n; d->value = v; }
QNetworkCookie::QNetworkCookie(const QNetworkCookie &o) : d(o.d) {}
QNetworkCookie::~QNetworkCookie() {}
QNetworkCookie &QNetworkCookie::operator=(const QNetworkCookie &o) { d = o.d; return *this; }
QByteArray QNetworkCookie::name() const { return d->name; }
QByteArray QNetworkCookie::value() const { return d->value; }
QByteArray QNetworkCookie::toRawForm(RawForm) const { QByteArray r = d->name; r.append('='); r.append(d->value); return r; }
// "name=value" lines only: attributes, quotes and bytes a cookie may not hold are outside the model.
QList<QNetworkCookie> QNetworkCookie::parseCookies(const QByteArray &t) {
	QList<QNetworkCookie> r; int at = 0; while (at < t.size()) {
		int e = at; while (e < t.size() && t.at(e) != '\n') ++e; QByteArray l = t.mid(at, e - at); at = e + 1; int q = -1;
		for (int i = 0; i < l.size(); ++i) { char c = l.at(i); if (c == '=' && q < 0) q = i; else if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'))) { sx_unmodelled("cookie parsing"); return r; } }
		if (q < 1) { sx_unmodelled("cookie parsing"); return r; } r.append(QNetworkCookie(l.left(q), l.mid(q + 1)));
	}
	return r;
}

// ---------------------------------------------------------------- TLS value types
class QSslKeyPrivate { public: QAtomicInt ref; QByteArray text; };
QSslKey::QSslKey() : d(new QSslKeyPrivate) {}
QSslKey::QSslKey(const QByteArray &t, QSsl::KeyAlgorithm, QSsl::EncodingFormat, QSsl::KeyType, const QByteArray &) : d(new QSslKeyPrivate) { d->text = t; }
QSslKey::QSslKey(const QSslKey &o) : d(o.d) {}
QSslKey::~QSslKey() {}
QSslKey &QSslKey::operator=(const QSslKey &o) { d = o.d; return *this; }
QSslKey &QSslKey::operator=(QSslKey &&o) Q_DECL_NOTHROW { d.swap(o.d); return *this; }
bool QSslKey::isNull() const { return d->text.isEmpty(); }
bool QSslKey::operator==(const QSslKey &o) const { return d->text == o.d->text; }
class QSslCertificatePrivate { public: QAtomicInt ref; QByteArray text; };
QSslCertificate::QSslCertificate(const QByteArray &t, QSsl::EncodingFormat) : d(new QSslCertificatePrivate) { d->text = t; }
QSslCertificate::QSslCertificate(const QSslCertificate &o) : d(o.d) {}
QSslCertificate::~QSslCertificate() {}
QSslCertificate &QSslCertificate::operator=(const QSslCertificate &o) { d = o.d; return *this; }
bool QSslCertificate::isNull() const { return d->text.isEmpty(); }
bool QSslCertificate::operator==(const QSslCertificate &o) const { return d->text == o.d->text; }
class QSslErrorPrivate { public: int x; };
QSslError::QSslError() : d(0) {}
QSslError::QSslError(const QSslError &) : d(0) {}
QSslError::~QSslError() {}
