// Replaces the transport and the clock under the repository's code, in the symbolic and the native build alike: the
// harness plays the peer. The repository's sources are compiled unchanged with these names substituted.
#pragma once
#include "qtall.h"
class SxTcpSocket : public QTcpSocket {
	Q_OBJECT
public:
	explicit SxTcpSocket(QObject *parent = 0);
	~SxTcpSocket();
	// what the peer sees and does
	QByteArray out; QByteArray in; QString host; int port; int connects, writes; bool slow; qint64 unsent; bool refused; int sslKeyed, sslCert, sslStarted, aborts; qint64 rbs; bool listenFd, failOnFlush, doomed;
	void sxConnected(); void sxFeed(const char *p, int n); void sxFeed(const QByteArray &b) { sxFeed(b.constData(), b.size()); }
	void sxRemoteClosed(); void sxFail(QAbstractSocket::SocketError e); void sxDrain(qint64 n);
	static SxTcpSocket *last; static int created, alive; static int badFd; static const char *peer; static QByteArray *early; // bytes a socket has received when it is adopted
	// QAbstractSocket, virtual
	void resume() {}
	void connectToHost(const QString &h, quint16 p, OpenMode m = ReadWrite, NetworkLayerProtocol l = AnyIPProtocol);
	void connectToHost(const QHostAddress &a, quint16 p, OpenMode m = ReadWrite);
	void disconnectFromHost();
	qint64 bytesAvailable() const; qint64 bytesToWrite() const; bool canReadLine() const { return false; }
	void setReadBufferSize(qint64 n); qintptr socketDescriptor() const { return 5; }
	bool setSocketDescriptor(qintptr fd, SocketState s = ConnectedState, OpenMode m = ReadWrite);
	void setSocketOption(QAbstractSocket::SocketOption, const QVariant &) {} QVariant socketOption(QAbstractSocket::SocketOption) { return QVariant(); }
	void close(); bool isSequential() const { return true; } bool atEnd() const { return in.isEmpty(); }
	bool waitForConnected(int = 0) { return false; } bool waitForReadyRead(int = 0) { return false; } bool waitForBytesWritten(int = 0) { return false; } bool waitForDisconnected(int = 0) { return false; }
	// QAbstractSocket, not virtual
	void abort(); bool flush(); qint64 readBufferSize() const { return rbs; }
protected:
	qint64 readData(char *d, qint64 n); qint64 readLineData(char *, qint64) { return -1; } qint64 writeData(const char *d, qint64 n);
};
class SxSslSocket : public SxTcpSocket {
	Q_OBJECT
public:
	explicit SxSslSocket(QObject *parent = 0);
	QSslKey key; QSslCertificate cert; bool encrypting; int writesBeforeEncryption, readsBeforeEncryption; bool readyAtStart;
	void setPrivateKey(const QSslKey &k); void setLocalCertificate(const QSslCertificate &c); void ignoreSslErrors() {} void setPeerVerifyMode(int) {} void setProtocol(int) {} bool isEncrypted() const { return encrypting; }
	static SxSslSocket *lastSsl;
public slots:
	void startServerEncryption();
signals:
	void encrypted(); void sslErrors(const QList<QSslError> &errors);
protected:
	qint64 readData(char *d, qint64 n); qint64 writeData(const char *d, qint64 n);
};
class SxElapsedTimer {
	qint64 t; bool v;
public:
	static qint64 now;
	SxElapsedTimer() : t(0), v(false) {}
	void start() { t = now; v = true; } qint64 restart() { qint64 r = elapsed(); start(); return r; } void invalidate() { v = false; } bool isValid() const { return v; }
	qint64 elapsed() const { return now - t; } qint64 nsecsElapsed() const { return elapsed() * 1000000; } bool hasExpired(qint64 ms) const { return quint64(elapsed()) > quint64(ms); } qint64 msecsSinceReference() const { return t; }
};
#ifndef SX_SHIM_IMPL
#define QTcpSocket SxTcpSocket
#define QSslSocket SxSslSocket
#define QElapsedTimer SxElapsedTimer
#endif
