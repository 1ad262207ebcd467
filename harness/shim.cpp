#define SX_SHIM_IMPL
#include "shim.h"
SxTcpSocket *SxTcpSocket::last; int SxTcpSocket::created, SxTcpSocket::alive, SxTcpSocket::badFd = -1; const char *SxTcpSocket::peer = "10.1.2.3"; QByteArray *SxTcpSocket::early; SxSslSocket *SxSslSocket::lastSsl; qint64 SxElapsedTimer::now = 1000;
SxTcpSocket::SxTcpSocket(QObject *p) : QTcpSocket(p), port(-1), connects(0), writes(0), slow(false), unsent(0), refused(false), sslKeyed(0), sslCert(0), sslStarted(0), aborts(0), rbs(0), listenFd(false), failOnFlush(false), doomed(false) { last = this; ++created; ++alive; }
SxTcpSocket::~SxTcpSocket() { --alive; setSocketState(UnconnectedState); setOpenMode(NotOpen); if (last == this) last = 0; }
void SxTcpSocket::connectToHost(const QString &h, quint16 p, OpenMode, NetworkLayerProtocol) { if (state() != UnconnectedState) { setSocketError(OperationError); emit errorOccurred(OperationError); return; } host = h; port = p; ++connects; in.clear(); out.clear(); unsent = 0; doomed = false; setSocketState(ConnectingState); }
void SxTcpSocket::connectToHost(const QHostAddress &a, quint16 p, OpenMode m) { connectToHost(a.toString(), p, m, AnyIPProtocol); }
void SxTcpSocket::sxConnected() { setSocketState(ConnectedState); setOpenMode(ReadWrite | Unbuffered); setPeerAddress(QHostAddress(QString::fromLatin1(peer))); emit connected(); if (doomed) { doomed = false; disconnectFromHost(); } }
bool SxTcpSocket::setSocketDescriptor(qintptr fd, SocketState s, OpenMode) { if (fd == badFd) return false; setSocketState(s); setOpenMode(ReadWrite | Unbuffered); setPeerAddress(QHostAddress(QString::fromLatin1(peer))); if (early) in = *early; return true; }
void SxTcpSocket::sxFeed(const char *p, int n) { in.append(p, n); emit readyRead(); }
qint64 SxTcpSocket::bytesAvailable() const { return in.size(); }
qint64 SxTcpSocket::bytesToWrite() const { return unsent; }
void SxTcpSocket::setReadBufferSize(qint64 n) { rbs = n; }
qint64 SxTcpSocket::readData(char *d, qint64 n) { if (n > in.size()) n = in.size(); memcpy(d, in.constData(), size_t(n)); in.remove(0, int(n)); return n; }
qint64 SxTcpSocket::writeData(const char *d, qint64 n) { if (state() != ConnectedState) return -1; out.append(d, int(n)); ++writes; if (slow) unsent += n; return n; }
void SxTcpSocket::sxDrain(qint64 n) { if (n > unsent) n = unsent; unsent -= n; if (n > 0) emit bytesWritten(n); if (unsent == 0 && state() == ClosingState) { setSocketState(UnconnectedState); emit disconnected(); } }
bool SxTcpSocket::flush() { if (unsent == 0) return false; if (failOnFlush) { sxRemoteClosed(); return false; } return slow ? false : true; }
void SxTcpSocket::disconnectFromHost() { if (state() == UnconnectedState || state() == ClosingState) return; if (state() == ConnectingState) { doomed = true; return; } // as QAbstractSocket: closed once connected
	 if (unsent > 0) { setSocketState(ClosingState); return; } bool was = state() == ConnectedState; setSocketState(UnconnectedState); if (was) emit disconnected(); setOpenMode(NotOpen); }
void SxTcpSocket::close() { QIODevice::close(); in.clear(); if (state() != UnconnectedState) disconnectFromHost(); }
void SxTcpSocket::abort() { ++aborts; if (state() == UnconnectedState) return; unsent = 0; QIODevice::close(); in.clear(); doomed = false; bool was = state() == ConnectedState; setSocketState(UnconnectedState); if (was) emit disconnected(); }
void SxTcpSocket::sxRemoteClosed() { setSocketError(RemoteHostClosedError); emit errorOccurred(RemoteHostClosedError); if (state() == ConnectingState) doomed = true; else if (state() != UnconnectedState) { unsent = 0; setSocketState(UnconnectedState); emit disconnected(); } }
void SxTcpSocket::sxFail(QAbstractSocket::SocketError e) { setSocketError(e); if (state() == ConnectingState) setSocketState(UnconnectedState); emit errorOccurred(e); }
SxSslSocket::SxSslSocket(QObject *p) : SxTcpSocket(p), encrypting(false), writesBeforeEncryption(0), readsBeforeEncryption(0), readyAtStart(false) { lastSsl = this; }
void SxSslSocket::setPrivateKey(const QSslKey &k) { key = k; ++sslKeyed; }
void SxSslSocket::setLocalCertificate(const QSslCertificate &c) { cert = c; ++sslCert; }
void SxSslSocket::startServerEncryption() { if (!encrypting) { readyAtStart = sslKeyed > 0 && sslCert > 0; in.clear(); } encrypting = true; ++sslStarted; } // what has been received so far is the handshake's
qint64 SxSslSocket::readData(char *d, qint64 n) { if (!encrypting) ++readsBeforeEncryption; return SxTcpSocket::readData(d, n); }
qint64 SxSslSocket::writeData(const char *d, qint64 n) { if (!encrypting) ++writesBeforeEncryption; return SxTcpSocket::writeData(d, n); }
