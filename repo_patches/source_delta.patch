From 489451e774b5eb40a49407d827de7ede75247170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 01/52] fix: keep the request URI intact when its query string
 is empty

'GET /path? HTTP/1.1' aliased the URI in the receive buffer and then had the
'?' overwritten by the terminator put after the path.
---
 pillowcore/HttpConnection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 3ac43a1..0516596 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -263,10 +263,10 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 
 	char* data = _requestBuffer.data();
 
-	if (_parser.query_string_len == 0)
+	if (_parser.request_path_len == 0 || _parser.request_path_len == _parser.request_uri_len)
 	{
-		// The request uri has no query string, we can use the data straight because it means that inserting null after the path
-		// will not destroy the uri (which does not include the fragment).
+		// The request uri ends where the path does (or there is no separate path), we can use the data straight because it means
+		// that inserting null after the path will not destroy the uri (which does not include the fragment).
 		setFromRawDataAndNullterm(_requestUri, data, _parser.request_uri_start, _parser.request_uri_len);
 	}
 	else
-- 
2.43.0


From c040659db58858581270df7a5d068ace852f39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 02/52] fix: accept a request head of exactly the maximum
 length

---
 pillowcore/HttpConnection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 0516596..e7d4780 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -173,7 +173,9 @@ inline void Pillow::HttpConnectionPrivate::processInput()
 		if (!_requestBuffer.isEmpty())
 			thin_http_parser_execute(&_parser, _requestBuffer.constData(), _requestBuffer.size(), _parser.nread);
 
-		if (_parser.nread > Pillow::HttpConnection::MaximumRequestHeaderLength || thin_http_parser_has_error(&_parser))
+		// Once finished, the headers end where the body starts (nread is then one past it).
+		const size_t headerLength = thin_http_parser_is_finished(&_parser) ? _parser.body_start : _parser.nread;
+		if (headerLength > Pillow::HttpConnection::MaximumRequestHeaderLength || thin_http_parser_has_error(&_parser))
 			return writeRequestErrorResponse(400); // Bad client Request!
 		else if (thin_http_parser_is_finished(&_parser))
 			transitionToReceivingContent();
-- 
2.43.0


From 2b8519b8e4dca52616d0847bbdb9bc19c8a2af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 03/52] fix: do not write to the shared null buffer when
 reusing a connection after a large request

---
 pillowcore/HttpConnection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index e7d4780..99702e6 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -143,8 +143,9 @@ inline void Pillow::HttpConnectionPrivate::initialize()
 	_parser.http_field = &HttpConnectionPrivate::parser_http_field;
 
 	// Clear any leftover data from a previous potentially failed request (that would not have gone though "transitionToCompleted")
-	if (_requestBuffer.capacity() <= Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.data_ptr()->size = 0;
-	else _requestBuffer.clear();
+	// The buffer may be the read-only shared null if the last request was so large that it was cleared.
+	if (_requestBuffer.capacity() > Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.clear();
+	else if (_requestBuffer.size() > 0) _requestBuffer.data_ptr()->size = 0;
 	_requestHeadersRef.clear();
 	if (_requestParams.capacity() > 16) _requestParams.clear();
 	else while(!_requestParams.isEmpty()) _requestParams.pop_back();
-- 
2.43.0


From 475a2d4d21ed4094dd1198ea7de47b0339b940fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 04/52] fix: do not write a HEAD response's content into the
 next pipelined request's response

---
 pillowcore/HttpConnection.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 99702e6..64fd78c 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -108,7 +108,7 @@ namespace Pillow
 		void transitionToReceivingHeaders();
 		void transitionToReceivingContent();
 		void transitionToSendingHeaders();
-		void transitionToSendingContent();
+		bool transitionToSendingContent(); // Returns false if the response was completed right away because it has no content.
 		void transitionToCompleted();
 		void flush();
 		void drain();
@@ -121,7 +121,7 @@ namespace Pillow
 	public: // From public interface.
 		void writeResponse(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QByteArray& content = QByteArray());
 		void writeResponseString(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QString& content = QString());
-		void writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection());
+		bool writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection()); // Returns whether content can be written for this response.
 		void writeContent(const QByteArray& content);
 		void endContent();
 		void close();
@@ -300,9 +300,9 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 	emit q_ptr->requestReady(q_ptr);
 }
 
-inline void Pillow::HttpConnectionPrivate::transitionToSendingContent()
+inline bool Pillow::HttpConnectionPrivate::transitionToSendingContent()
 {
-	if (_state == Pillow::HttpConnection::SendingContent) return;
+	if (_state == Pillow::HttpConnection::SendingContent) return true;
 	_state = Pillow::HttpConnection::SendingContent;
 
 	if (_responseHeadersBuffer.capacity() > 4096)
@@ -311,13 +311,17 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingContent()
 		_responseHeadersBuffer.data_ptr()->size = 0;
 
 	if (_responseContentLength == 0 || _requestMethod == headToken)
+	{
 		transitionToCompleted();
+		return false; // From here on, the state may be that of the next request.
+	}
 
 	if (_responseContentLength < 0 && !_responseChunkedTransferEncoding)
 	{
 		// The response content length needs to be specified or chunked transfer encoding used to support keep-alive. Forcefully disable it.
 		_responseConnectionKeepAlive = false;
 	}
+	return true;
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
@@ -442,16 +446,15 @@ inline void Pillow::HttpConnectionPrivate::writeResponse(int statusCode, const H
 
 	// Calculate the Content-Length header so it can be set in WriteHeaders, unless it is already present.
 	_responseContentLength = content.size();
-	writeHeaders(statusCode, headers);
-	if (!content.isEmpty() && _requestMethod != headToken) writeContent(content);
+	if (writeHeaders(statusCode, headers) && !content.isEmpty()) writeContent(content);
 }
 
-inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
+inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
 {
 	if (_state != Pillow::HttpConnection::SendingHeaders)
 	{
 		qWarning() << "HttpConnection::writeHeaders called while state is not 'SendingHeaders', not proceeding with sending headers.";
-		return;
+		return false;
 	}
 
 	const char* statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode);
@@ -552,7 +555,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
 	_responseHeadersBuffer.append(crLfToken); // End of headers.
 	_outputDevice->write(_responseHeadersBuffer);
-	transitionToSendingContent();
+	return transitionToSendingContent();
 }
 
 inline void Pillow::HttpConnectionPrivate::writeContent(const QByteArray &content)
-- 
2.43.0


From c7adc584c5ce7f66f0f6a4588edc3330c0104542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 05/52] fix: send a status code when replacing an invalid
 status with 500

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 64fd78c..cda3e51 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -462,7 +462,7 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	{
 		// Huh? Trying to send a bad status code...
 		qWarning() << "HttpConnection::writeHeaders:" << statusCode << "is not a valid Http status code. Using 500 Internal Server Error instead.";
-		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusMessage(500); // Internal server error.
+		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(500); // Internal server error.
 	}
 	_responseStatusCode = statusCode;
 
-- 
2.43.0


From 24f7b552ee9dd2f612fc29a3a843102c0a9d55bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 06/52] fix: do not announce a negative response content length

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index cda3e51..1e855a7 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -482,7 +482,7 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		{
 			bool ok = false;
 			_responseContentLength = header->second.toLongLong(&ok);
-			if (!ok)
+			if (!ok || _responseContentLength < 0)
 			{
 				// Somebody trying to be a bad server? Pretend we don't know the length.
 				qWarning() << "HttpConnection::writeHeaders: Invalid content-length header specified. Sending response as if content-length was unknown.";
-- 
2.43.0


From ad509aee3504ccc265bd29a957afee0c17aaae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 07/52] fix: announce response content lengths of 2 GiB and
 more exactly

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 1e855a7..4384b1e 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -549,7 +549,7 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		_responseConnectionKeepAlive = false;
 
 	// Automatically add essential headers.
-	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<int, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
+	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<qint64, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
 	if (contentTypeHeader) { _responseHeadersBuffer.append(*contentTypeHeader); } else if (_responseContentLength > 0) { _responseHeadersBuffer.append(contentTypeTextPlainTokenHeaderToken); }
 	if (!_requestHttp11 || !_responseConnectionKeepAlive) _responseHeadersBuffer.append(_responseConnectionKeepAlive ? connectionKeepAliveHeaderToken : connectionCloseHeaderToken);
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
-- 
2.43.0


From 6dcc8ac8abfd89d82f6301603a60eea87987ab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 08/52] fix: stop processing a connection closed while its
 request completes

---
 pillowcore/HttpConnection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 4384b1e..f0358ed 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -333,6 +333,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	}
 	_state = Pillow::HttpConnection::Completed;
 	emit q_ptr->requestCompleted(q_ptr);
+	if (_state != Pillow::HttpConnection::Completed) return; // The connection was closed by one of the slots.
 
 	// Preserve any existing data in the request buffer that did not belong to the completed request.
 	// Reuse the already allocated buffer if it is not too large.
@@ -351,6 +352,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	if (_responseConnectionKeepAlive)
 	{
 		flush(); // Done writing for this request, make sure the data is pushed right away to the client.
+		if (_state != Pillow::HttpConnection::Completed) return; // The connection was lost while flushing.
 		transitionToReceivingHeaders();
 		processInput();
 	}
-- 
2.43.0


From f4cff600a87c80ca34a27fc7e42107e869ad78d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 09/52] fix: leave a percent sign that is not followed by two
 hex digits as it is when decoding

---
 pillowcore/ByteArrayHelpers.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pillowcore/ByteArrayHelpers.h b/pillowcore/ByteArrayHelpers.h
index f73f237..5fd3112 100644
--- a/pillowcore/ByteArrayHelpers.h
+++ b/pillowcore/ByteArrayHelpers.h
@@ -200,13 +200,18 @@ namespace Pillow
 			return 0;
 		}
 
+		inline bool isHex(const char c)
+		{
+			return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
+		}
+
 		inline int percentDecodeInPlace(char* data, int size)
 		{
 			const char* inData = data;
 			const char* inDataE = data + size;
 			while (inData < inDataE)
 			{
-				if (inData[0] == '%' && inData + 2 < inDataE)
+				if (inData[0] == '%' && inData + 2 < inDataE && isHex(inData[1]) && isHex(inData[2]))
 				{
 					// Percent-encoded sequence.
 					*data = static_cast<char>(unhex(inData[1]) << 4 | unhex(inData[2]));
-- 
2.43.0


From 54fc79e2acfac098d8da15f8b2233cdce0a004ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 10/52] fix: write the lowest value of a signed integer type
 correctly

---
 pillowcore/ByteArrayHelpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/ByteArrayHelpers.h b/pillowcore/ByteArrayHelpers.h
index 5fd3112..6f665bd 100644
--- a/pillowcore/ByteArrayHelpers.h
+++ b/pillowcore/ByteArrayHelpers.h
@@ -115,8 +115,8 @@ namespace Pillow
 		{
 			static const char intToChar[16] = { '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f' };
 			int start = target.size();
-			Integer n = number; if (n < 0) n = -n;
-			do { if (Base <= 10) target.append(char(n % Base) + '0'); else target.append(intToChar[n % Base]); } while ((n /= Base) > 0);
+			Integer n = number; // Not negated when negative: the lowest value has no positive counterpart.
+			do { int digit = int(n % Base); if (digit < 0) digit = -digit; if (Base <= 10) target.append(char(digit) + '0'); else target.append(intToChar[digit]); } while ((n /= Base) != 0);
 			if (number < 0) target.append('-');
 
 			// Reverse the string we've just output
-- 
2.43.0


From fde4d1f0d16a5ab688fea7c4b705fc2b29d3c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 11/52] fix: appending a header collection to itself read past
 its end

---
 pillowcore/HttpHeader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpHeader.cpp b/pillowcore/HttpHeader.cpp
index ac67e31..e4d8d84 100644
--- a/pillowcore/HttpHeader.cpp
+++ b/pillowcore/HttpHeader.cpp
@@ -52,12 +52,13 @@ void Pillow::HttpHeader::setFromRawHeader(const char *rawHeader, int len)
 
 Pillow::HttpHeaderCollection &Pillow::HttpHeaderCollection::operator+=(const QVector<HttpHeader> &l)
 {
-	int oldSize = size();
-	resize(size() + l.size());
+	const int oldSize = size();
+	const int addedSize = l.size(); // Taken before resizing, as l can be this collection itself.
+	resize(oldSize + addedSize);
 
 	Pillow::HttpHeader *dest = begin() + oldSize;
 	const Pillow::HttpHeader *src = l.begin();
-	const Pillow::HttpHeader *srcE = l.end();
+	const Pillow::HttpHeader *srcE = src + addedSize;
 	while (src != srcE)
 		*(dest++) = *(src++);
 
-- 
2.43.0


From 03298748243dc20b1e4d075b48f77ff8adad2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 12/52] fix: write years before 1000 with four digits in dates

---
 pillowcore/HttpHelpers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpHelpers.cpp b/pillowcore/HttpHelpers.cpp
index f765d33..13d3c32 100644
--- a/pillowcore/HttpHelpers.cpp
+++ b/pillowcore/HttpHelpers.cpp
@@ -95,6 +95,7 @@ namespace Pillow
 
 				QByteArray httpDate; httpDate.reserve(32);
 				httpDate.append(dayNames[date.dayOfWeek()]).append(", ").append(intNames[date.day()]).append(' ').append(monthNames[date.month()]).append(' ');
+				if (date.year() >= 0 && date.year() < 1000) httpDate.append(date.year() < 10 ? "000" : date.year() < 100 ? "00" : "0"); // The year always has four digits.
 				Pillow::ByteArrayHelpers::appendNumber<int, 10>(httpDate, date.year());
 				httpDate.append(' ').append(intNames[time.hour()]).append(':').append(intNames[time.minute()]).append(':').append(intNames[time.second()]).append(" GMT");
 
-- 
2.43.0


From 76655de115dbcb4dc9ca0a752786f9d2652ea416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 13/52] fix: log entries are not corrupted by a '%' in the
 request line

The entry was built with chained arg() calls, so a "%2" in the request URI
was taken for a place marker and replaced by a later argument.
---
 pillowcore/HttpHandler.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 6fa9dfc..55c4c25 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -156,9 +156,9 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 	else if (_mode == TraceRequests)
 	{
 		QString logEntry = QString("[BEGIN] %1 - - [%2] \"%3 %4 %5\" - - -")
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()));
+				.arg(connection->remoteAddress().toString(),
+					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()));
 
 		log(logEntry);
 	}
@@ -175,11 +175,11 @@ void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+				.arg(connection->remoteAddress().toString(),
+					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
+					 QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
@@ -194,11 +194,11 @@ void HttpHandlerLog::requestClosed(HttpConnection *connection)
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+				.arg(connection->remoteAddress().toString(),
+					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
+					 QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
-- 
2.43.0


From 9be08f4e088befc601b617bc294cdfa4cbbba859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 14/52] fix: log a closed connection's request from a copy of
 its data

When the connection closes after its request was completed, the request's
method, URI and version may already have been freed or overwritten.
---
 pillowcore/HttpHandler.cpp | 46 ++++++++++++++++++++++++--------------
 pillowcore/HttpHandler.h   |  3 ++-
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 55c4c25..3669a49 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -116,6 +116,16 @@ bool HttpHandlerFunction::handleRequest(HttpConnection *connection)
 // HttpHandlerLog
 //
 
+// What is kept about the last request of each connection: by the time the connection gets closed,
+// the connection may no longer hold that request's data.
+struct HttpHandlerLog::RequestInfo
+{
+	QElapsedTimer timer;
+	QString method;
+	QString uri;
+	QString httpVersion;
+};
+
 HttpHandlerLog::HttpHandlerLog(QObject *parent)
 	: HttpHandler(parent), _mode(LogCompletedRequests), _device(0)
 {
@@ -133,21 +143,24 @@ HttpHandlerLog::HttpHandlerLog(QIODevice *device, QObject *parent)
 
 HttpHandlerLog::~HttpHandlerLog()
 {
-	foreach (QElapsedTimer* timer, _requestTimerMap)
-		delete timer;
+	foreach (RequestInfo* info, _requestInfoMap)
+		delete info;
 }
 
 bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer == NULL)
+	RequestInfo* info = _requestInfoMap.value(connection, NULL);
+	if (info == NULL)
 	{
-		timer = _requestTimerMap[connection] = new QElapsedTimer();
+		info = _requestInfoMap[connection] = new RequestInfo();
 		connect(connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(requestCompleted(Pillow::HttpConnection*)));
 		connect(connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(requestClosed(Pillow::HttpConnection*)));
 		connect(connection, SIGNAL(destroyed(QObject*)), this, SLOT(requestDestroyed(QObject*)));
 	}
-	timer->start();
+	info->timer.start();
+	info->method = QString(connection->requestMethod());
+	info->uri = QString(connection->requestUri());
+	info->httpVersion = QString(connection->requestHttpVersion());
 
 	if (_mode == LogCompletedRequests)
 	{
@@ -158,7 +171,7 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 		QString logEntry = QString("[BEGIN] %1 - - [%2] \"%3 %4 %5\" - - -")
 				.arg(connection->remoteAddress().toString(),
 					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
-					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()));
+					 info->method, info->uri, info->httpVersion);
 
 		log(logEntry);
 	}
@@ -168,16 +181,16 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 
 void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer)
+	RequestInfo* info = _requestInfoMap.value(connection, NULL);
+	if (info)
 	{
 		const char* formatString = (_mode == LogCompletedRequests) ? "%1 - - [%2] \"%3 %4 %5\" %6 %7 %8" : "[ END ] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8";
 
-		qint64 elapsed = timer->elapsed();
+		qint64 elapsed = info->timer.elapsed();
 		QString logEntry = QString(formatString)
 				.arg(connection->remoteAddress().toString(),
 					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
-					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 info->method, info->uri, info->httpVersion,
 					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
 					 QString::number(elapsed / 1000.0, 'f', 3));
 
@@ -187,16 +200,16 @@ void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 
 void HttpHandlerLog::requestClosed(HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer && _mode == TraceRequests)
+	RequestInfo* info = _requestInfoMap.value(connection, NULL);
+	if (info && _mode == TraceRequests)
 	{
 		const char* formatString = "[CLOSE] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8";
 
-		qint64 elapsed = timer->elapsed();
+		qint64 elapsed = info->timer.elapsed();
 		QString logEntry = QString(formatString)
 				.arg(connection->remoteAddress().toString(),
 					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
-					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 info->method, info->uri, info->httpVersion,
 					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
 					 QString::number(elapsed / 1000.0, 'f', 3));
 
@@ -207,8 +220,7 @@ void HttpHandlerLog::requestClosed(HttpConnection *connection)
 void HttpHandlerLog::requestDestroyed(QObject *r)
 {
 	HttpConnection* connection = static_cast<HttpConnection*>(r);
-	delete _requestTimerMap.value(connection, NULL);
-	_requestTimerMap.remove(connection);
+	delete _requestInfoMap.take(connection);
 }
 
 void HttpHandlerLog::log(const QString &entry)
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index 5f26961..0cf2941 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -163,7 +163,8 @@ namespace Pillow
 		void log(const QString& entry);
 
 	private:
-		QHash<Pillow::HttpConnection*, QElapsedTimer*> _requestTimerMap;
+		struct RequestInfo;
+		QHash<Pillow::HttpConnection*, RequestInfo*> _requestInfoMap;
 		Mode _mode;
 		QPointer<QIODevice> _device;
 	};
-- 
2.43.0


From 028ee592f64c6502884697e26801b9dc19d5b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 15/52] fix: name route params in the order they appear in the
 pattern

All :params were named before all *splats, so a splat followed by a param
got each other's values.
---
 pillowcore/HttpHandlerSimpleRouter.cpp | 35 ++++++++------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 6a7363c..938cce9 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -190,34 +190,19 @@ void HttpHandlerSimpleRouter::addRoute(const QByteArray &method, const QString &
 
 QRegExp Pillow::HttpHandlerSimpleRouter::pathToRegExp(const QString &p, QStringList* outParamNames)
 {
-	QString path = p;
-
-	QRegExp paramRegex(":(\\w+)"); QString paramReplacement("([\\w_-]+)");
+	// Params and splats are replaced in a single pass, so that paramNames is in the order of the captures.
+	QRegExp paramRegex("([:*])(\\w+)"); QString paramReplacement("([\\w_-]+)"), splatReplacement("(.*)");
 	QStringList paramNames;
-	int pos = 0;
-	while (pos >= 0)
-	{
-		pos = paramRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << paramRegex.cap(1);
-			pos += paramRegex.matchedLength();
-		}
-	}
-	path.replace(paramRegex, paramReplacement);
-
-	QRegExp splatRegex("\\*(\\w+)"); QString splatReplacement("(.*)");
-	pos = 0;
-	while (pos >= 0)
+	QString path;
+	int last = 0, pos;
+	while ((pos = paramRegex.indexIn(p, last)) >= 0)
 	{
-		pos = splatRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << splatRegex.cap(1);
-			pos += splatRegex.matchedLength();
-		}
+		path += p.mid(last, pos - last);
+		path += paramRegex.cap(1) == ":" ? paramReplacement : splatReplacement;
+		paramNames << paramRegex.cap(2);
+		last = pos + paramRegex.matchedLength();
 	}
-	path.replace(splatRegex, splatReplacement);
+	path += p.mid(last);
 
 	if (outParamNames)
 		*outParamNames = paramNames;
-- 
2.43.0


From 14cfd3f5e50797ea9924c3ba9e6a0a96744c4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 16/52] fix: literal text in a route is matched literally

A route like "/a.b" also matched "/axb", and one like "/a+b" did not match
itself: the text around the params went into the regular expression as is.
---
 pillowcore/HttpHandlerSimpleRouter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 938cce9..8e1e5fb 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -197,12 +197,12 @@ QRegExp Pillow::HttpHandlerSimpleRouter::pathToRegExp(const QString &p, QStringL
 	int last = 0, pos;
 	while ((pos = paramRegex.indexIn(p, last)) >= 0)
 	{
-		path += p.mid(last, pos - last);
+		path += QRegExp::escape(p.mid(last, pos - last));
 		path += paramRegex.cap(1) == ":" ? paramReplacement : splatReplacement;
 		paramNames << paramRegex.cap(2);
 		last = pos + paramRegex.matchedLength();
 	}
-	path += p.mid(last);
+	path += QRegExp::escape(p.mid(last));
 
 	if (outParamNames)
 		*outParamNames = paramNames;
-- 
2.43.0


From 1214faa52db1e60c12f1f858c3fb5fd8038a1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 17/52] fix: routes to an invokable method given by its
 signature

The result of indexOfMethod was dropped, and the signature was then used as a
member name, which never invokes anything.
---
 pillowcore/HttpHandlerSimpleRouter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 8e1e5fb..eec5d60 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -143,7 +143,7 @@ void HttpHandlerSimpleRouter::addRoute(const QByteArray& method, const QString&
 		member++;
 	}
 	int methodIndex = object->metaObject()->indexOfSlot(member);
-	if (methodIndex == -1) object->metaObject()->indexOfMethod(member);
+	if (methodIndex == -1) methodIndex = object->metaObject()->indexOfMethod(member);
 
 	if (methodIndex == -1)
 	{
-- 
2.43.0


From 6a29e6fa122d85cec70e1dbb9e1148d7188ded3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 18/52] fix: do not serve files of folders next to the public
 folder

The public path was compared as a text prefix, so a path like "/../public2/x"
reached files in folders whose name starts with that of the public folder.
---
 pillowcore/HttpHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 3669a49..6a154dd 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -296,7 +296,7 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 	{
 		return false;
 	}
-	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath))
+	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath.endsWith('/') ? _publicPath : _publicPath + '/'))
 	{
 		return false; // Somebody tried to use some ".." or has followed symlinks that escaped out of the public path.
 	}
-- 
2.43.0


From e9ab1a151112bebc7b2c038c57aa70dce2e3a51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 19/52] fix: a file transfer stops as soon as its request ends

The transfer of a large file only ended when the event loop deleted it, and
that of a HEAD request, which is complete once its headers are written, not
at all: file content could be written into a later response.
---
 pillowcore/HttpHandler.cpp | 16 ++++++++++++----
 pillowcore/HttpHandler.h   |  3 +++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 6a154dd..494dc96 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -337,12 +337,13 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 		{
 			// The file exceeds the buffer size and must be sent incrementally. Do send the headers right away.
 			headers << HttpHeader("Content-Length", QByteArray::number(file->size()));
-			connection->writeHeaders(200, headers);
 
+			// The transfer has to know if writing the headers already ends the request, as it does for HEAD.
 			HttpHandlerFileTransfer* transfer = new HttpHandlerFileTransfer(file, connection, bufferSize());
 			file->setParent(transfer);
 			//transfer->setParent(this);
 			connect(transfer, SIGNAL(finished()), transfer, SLOT(deleteLater()));
+			connection->writeHeaders(200, headers);
 			transfer->writeNextPayload();
 		}
 	}
@@ -364,12 +365,19 @@ HttpHandlerFileTransfer::HttpHandlerFileTransfer(QIODevice *sourceDevice, HttpCo
 	}
 
 	connect(sourceDevice, SIGNAL(destroyed()), this, SLOT(deleteLater()));
-	connect(_connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(deleteLater()));
-	connect(_connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(deleteLater()));
-	connect(_connection, SIGNAL(destroyed()), this, SLOT(deleteLater()));
+	connect(_connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(stop()));
+	connect(_connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(stop()));
+	connect(_connection, SIGNAL(destroyed()), this, SLOT(stop()));
 	connect(_connection->outputDevice(), SIGNAL(bytesWritten(qint64)), this, SLOT(writeNextPayload()), Qt::QueuedConnection);
 }
 
+void HttpHandlerFileTransfer::stop()
+{
+	// Until it gets deleted, this object must not write into the response to some other request.
+	_connection = NULL;
+	deleteLater();
+}
+
 void HttpHandlerFileTransfer::writeNextPayload()
 {
 	if (_sourceDevice == NULL || _connection == NULL || _connection->outputDevice() == NULL) return;
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index 0cf2941..b993734 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -212,6 +212,9 @@ namespace Pillow
 	public slots:
 		void writeNextPayload();
 
+	private slots:
+		void stop();
+
 	signals:
 		void finished();
 	};
-- 
2.43.0


From 492d619396396e32d4dec0bded14b21b83123051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 20/52] fix: bytes above 127 are no chunk size digits

---
 pillowcore/parser/http_parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index 6dbabe8..3b27428 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -181,6 +181,14 @@ static const int8_t unhex[256] =
   ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
   ,-1,10,11,12,13,14,15,-1,-1,-1,-1,-1,-1,-1,-1,-1
   ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
   };
 
 
-- 
2.43.0


From bef9b5ca0c993b017d6c306b9e5ffeacd35ac125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 21/52] fix: an offer to upgrade or a status without body does
 not change where a response ends

---
 pillowcore/HttpClient.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 921fe23..1dc10ec 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -303,8 +303,16 @@ int Pillow::HttpResponseParser::parser_on_headers_complete(http_parser *parser)
 {
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
 	self->pushHeader();
+
+	// Only a 101 response switches protocols: the header alone is just an offer to do so.
+	if (parser->status_code != 101)
+		parser->upgrade = 0;
+
 	self->headersComplete();
-	return 0;
+
+	// These never have a body, whatever their headers say.
+	const bool skipBody = parser->status_code / 100 == 1 || parser->status_code == 204 || parser->status_code == 304;
+	return skipBody ? 1 : 0;
 }
 
 int Pillow::HttpResponseParser::parser_on_body(http_parser *parser, const char *at, size_t length)
-- 
2.43.0


From b62ef8affc8af8cfc52dd31d7437fd4e6c9be615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 22/52] fix: an unfinished header does not leak into the next
 response

---
 pillowcore/HttpClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 1dc10ec..5604420 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -255,6 +255,8 @@ void Pillow::HttpResponseParser::messageBegin()
 {
 	while (!_headers.isEmpty()) _headers.pop_back();
 	_content.clear();
+	_field.clear();
+	_value.clear();
 	_lastWasValue = false;
 }
 
-- 
2.43.0


From ffe8c01df6b8fcdb2286a3056515084d4a31ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 23/52] fix: any number of interim responses in one read is
 hidden

---
 pillowcore/HttpClient.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 5604420..4b20ac3 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -606,24 +606,22 @@ void Pillow::HttpClient::device_readyRead()
 
 		if (!hasError())
 		{
-			if (consumed < _buffer.size())
+			// We had multiple responses in the buffer?
+			// They were 100 Continue responses as long as we are still response pending.
+			while (consumed < _buffer.size() && responsePending() && !hasError())
 			{
-				// We had multiple responses in the buffer?
-				// It was a 100 Continue since we are still response pending.
-				consumed += inject(_buffer.constData() + consumed, _buffer.size() - consumed);
-
-				if (consumed < _buffer.size())
-				{
-					qWarning() << "Left some unconsumed data in the buffer:" << (_buffer.size() - consumed);
-				}
+				int moreConsumed = inject(_buffer.constData() + consumed, _buffer.size() - consumed);
+				if (moreConsumed <= 0) break;
+				consumed += moreConsumed;
 			}
-			else
+
+			if (consumed < _buffer.size())
 			{
-				// Just waiting for more data to consume.
+				qWarning() << "Left some unconsumed data in the buffer:" << (_buffer.size() - consumed);
 			}
 		}
 
-		if (hasError()) // Re-check for error in case we injected again in the 100 Continue case above.
+		if (responsePending() && hasError()) // Re-check for error in case we injected again in the 100 Continue case above.
 		{
 			_error = ResponseInvalidError;
 			_device->close();
-- 
2.43.0


From 486145482b2a8bf405f3b107c3f35d1783a6f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 24/52] fix: a HEAD request aborted from headersCompleted
 finishes once

---
 pillowcore/HttpClient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 4b20ac3..db87e19 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -687,6 +687,9 @@ void Pillow::HttpClient::headersComplete()
 
 	emit headersCompleted();
 
+	if (!_responsePending)
+		return; // Aborted from the signal.
+
 	if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(_request.method, Pillow::LowerCaseToken("head")))
 	{
 		pause();
-- 
2.43.0


From 1b26f31767677fdb679c8769e29bb0bbdeba5c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 25/52] fix: the decoder of an unfinished response is not used
 for the next one

---
 pillowcore/HttpClient.cpp | 9 ++++++++-
 pillowcore/HttpClient.h   | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index db87e19..63f502a 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -361,6 +361,11 @@ Pillow::HttpClient::HttpClient(QObject *parent)
 	_keepAliveTimeoutTimer.invalidate();
 }
 
+Pillow::HttpClient::~HttpClient()
+{
+	delete _contentDecoder;
+}
+
 int Pillow::HttpClient::keepAliveTimeout() const
 {
 	return _keepAliveTimeout;
@@ -676,6 +681,8 @@ void Pillow::HttpClient::sendRequest()
 
 void Pillow::HttpClient::messageBegin()
 {
+	delete _contentDecoder; // Of a previous response that did not complete.
+	_contentDecoder = 0;
 	Pillow::HttpResponseParser::messageBegin();
 }
 
@@ -703,7 +710,7 @@ void Pillow::HttpClient::headersComplete()
 			const Pillow::HttpHeader& header = _headers.at(i);
 			if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("content-encoding")))
 			{
-				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.second, Pillow::LowerCaseToken("gzip")))
+				if (_contentDecoder == 0 && Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.second, Pillow::LowerCaseToken("gzip")))
 					_contentDecoder = new Pillow::GunzipContentTransformer();
 			}
 		}
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index bbf25fb..e38b6f8 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -174,6 +174,7 @@ namespace Pillow
 
 	public:
 		HttpClient(QObject* parent = 0);
+		~HttpClient();
 
 		// keepAliveTimeout: Maximum time, in milliseconds, for which the client will keep an established connection channel
 		//                   between requests to the same host. Use 0 to disable keep-alive.
-- 
2.43.0


From 0ef43d6f38b37b1ecdfdc114c720962811bc5024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 26/52] fix: an empty path is requested as /

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 63f502a..25fc738 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -667,6 +667,7 @@ void Pillow::HttpClient::sendRequest()
 	}
 
 	QByteArray uri = _request.url.encodedPath();
+	if (uri.isEmpty()) uri.append('/');
 	const QByteArray query = _request.url.encodedQuery();
 	if (!query.isEmpty()) uri.append('?').append(query);
 
-- 
2.43.0


From 8fcd6a660088277d463a150d78d6f03aff905f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 27/52] fix: relative redirections are followed from the
 current address

---
 pillowcore/HttpClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 25fc738..1f40f47 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -539,7 +539,7 @@ void Pillow::HttpClient::followRedirection()
 	}
 
 	Pillow::HttpClientRequest newRequest = _request;
-	newRequest.url = QUrl::fromEncoded(redirectionLocation());
+	newRequest.url = _request.url.resolved(QUrl::fromEncoded(redirectionLocation()));
 	request(newRequest);
 }
 
-- 
2.43.0


From 51564fdd709ddcf60df40bd2148c1bbe0706d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:00 +0000
Subject: [PATCH 28/52] fix: a request made when the server has closed the
 connection is carried out

---
 pillowcore/HttpClient.cpp | 27 +++++++++++++++++++++------
 pillowcore/HttpClient.h   |  2 ++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 1f40f47..6447c67 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -351,7 +351,7 @@ inline void Pillow::HttpResponseParser::pushHeader()
 //
 
 Pillow::HttpClient::HttpClient(QObject *parent)
-	: QObject(parent), _responsePending(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
+	: QObject(parent), _responsePending(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0), _handlingDeviceError(false)
 {
 	_device = new QTcpSocket(this);
 	connect(_device, SIGNAL(error(QAbstractSocket::SocketError)), this, SLOT(device_error(QAbstractSocket::SocketError)));
@@ -476,11 +476,18 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 		return;
 	}
 
-	if (Pillow::HttpResponseParser::isParsing())
+	if (!_pendingRequest.method.isNull())
+	{
+		qWarning("Pillow::HttpClient::request: cannot send new request while another one is about to be sent. Request pipelining is not supported.");
+		return;
+	}
+
+	if (Pillow::HttpResponseParser::isParsing() || _handlingDeviceError)
 	{
 		// We most likely got cancelled in a callback or got asked for a new request
 		// in the messageComplete() callback. So we are not responsePending but still parsing.
-		// Keep the request for after we come out of parsing.
+		// Keep the request for after we come out of parsing. The same goes while the socket
+		// reports an error: it is going to end any connection that would be opened now.
 		_pendingRequest = request;
 		return;
 	}
@@ -561,9 +568,14 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		_error = NetworkError;
 	}
 
+	_handlingDeviceError = true;
 	_device->close();
 	_responsePending = false;
 	emit finished();
+	_handlingDeviceError = false;
+
+	if (!_pendingRequest.method.isNull())
+		QTimer::singleShot(0, this, SLOT(sendPendingRequest()));
 }
 
 void Pillow::HttpClient::device_connected()
@@ -641,15 +653,18 @@ void Pillow::HttpClient::device_readyRead()
 	else
 		_buffer.data_ptr()->size = 0;
 
-	// Response completed or got aborted in a callback.
+	// Response completed or got aborted in a callback, plus we might have got a new request while in callback.
+	sendPendingRequest();
+}
+
+void Pillow::HttpClient::sendPendingRequest()
+{
 	if (!responsePending() && !_pendingRequest.method.isNull())
 	{
-		// Plus we got a new request while in callback.
 		Pillow::HttpClientRequest r = _pendingRequest;
 		_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
 		request(r);
 	}
-
 }
 
 void Pillow::HttpClient::sendRequest()
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index e38b6f8..bc6cd9b 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -228,6 +228,7 @@ namespace Pillow
 		void device_error(QAbstractSocket::SocketError error);
 		void device_connected();
 		void device_readyRead();
+		void sendPendingRequest();
 
 	private:
 		void sendRequest();
@@ -251,6 +252,7 @@ namespace Pillow
 		QElapsedTimer _keepAliveTimeoutTimer;
 		QByteArray _hostHeaderValue;
 		Pillow::ContentTransformer* _contentDecoder;
+		bool _handlingDeviceError;
 	};
 
 	//
-- 
2.43.0


From 3b46b283e08ac14c73823d226c67c0b5a81032a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:00 +0000
Subject: [PATCH 29/52] fix: the end of the connection completes a response
 without other delimiter

---
 pillowcore/HttpClient.cpp | 50 +++++++++++++++++++++++----------------
 pillowcore/HttpClient.h   |  1 +
 2 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 6447c67..ef52428 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -559,19 +559,23 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		return;
 	}
 
-	switch (error)
+	_handlingDeviceError = true;
+
+	if (error == QAbstractSocket::RemoteHostClosedError && !isParsing())
 	{
-	case QAbstractSocket::RemoteHostClosedError:
-		_error = RemoteHostClosedError;
-		break;
-	default:
-		_error = NetworkError;
+		// The end of the connection also ends the response if it has no other delimiter.
+		receive(_device->bytesAvailable());
+		if (_responsePending) injectEof();
+	}
+
+	if (_responsePending)
+	{
+		_error = error == QAbstractSocket::RemoteHostClosedError ? RemoteHostClosedError : NetworkError;
+		_device->close();
+		_responsePending = false;
+		emit finished();
 	}
 
-	_handlingDeviceError = true;
-	_device->close();
-	_responsePending = false;
-	emit finished();
 	_handlingDeviceError = false;
 
 	if (!_pendingRequest.method.isNull())
@@ -594,22 +598,29 @@ void Pillow::HttpClient::device_readyRead()
 	}
 
 	qint64 bytesAvailable = _device->bytesAvailable();
-	if (bytesAvailable == 0) return;
-
-	if (_buffer.capacity() < _buffer.size() + bytesAvailable)
-		_buffer.reserve(_buffer.size() + bytesAvailable);
-
 	qint64 bufferSize = readBufferSize();
 	if (bufferSize > 0)
-		bytesAvailable = bufferSize - _content.size();
+		bytesAvailable = qMin(bytesAvailable, bufferSize - _content.size());
+
+	receive(bytesAvailable);
+
+	// Response completed or got aborted in a callback, plus we might have got a new request while in callback.
+	sendPendingRequest();
+}
 
-	if (bytesAvailable <= 0)
+void Pillow::HttpClient::receive(qint64 length)
+{
+	if (length <= 0)
 	{
 		// Nothing to read or no space in buffers. Wait for more data or more space in buffers.
 		return;
 	}
 
-	qint64 bytesRead = _device->read(_buffer.data() + _buffer.size(), bytesAvailable);
+	if (_buffer.capacity() < _buffer.size() + length)
+		_buffer.reserve(_buffer.size() + length);
+
+	qint64 bytesRead = _device->read(_buffer.data() + _buffer.size(), length);
+	if (bytesRead <= 0) return;
 	_buffer.data_ptr()->size += bytesRead;
 
 	int consumed = inject(_buffer);
@@ -652,9 +663,6 @@ void Pillow::HttpClient::device_readyRead()
 		_buffer.clear();
 	else
 		_buffer.data_ptr()->size = 0;
-
-	// Response completed or got aborted in a callback, plus we might have got a new request while in callback.
-	sendPendingRequest();
 }
 
 void Pillow::HttpClient::sendPendingRequest()
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index bc6cd9b..aa368ef 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -231,6 +231,7 @@ namespace Pillow
 		void sendPendingRequest();
 
 	private:
+		void receive(qint64 length);
 		void sendRequest();
 
 	protected:
-- 
2.43.0


From 5162768ef56415b40df1a6e5518e6e9c476689f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:00 +0000
Subject: [PATCH 30/52] fix: a response that fits in the read buffer is read to
 its end

---
 pillowcore/HttpClient.cpp | 13 ++++++++++++-
 pillowcore/HttpClient.h   |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index ef52428..b4246d8 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -428,7 +428,7 @@ QByteArray Pillow::HttpClient::consumeContent()
 	_content = QByteArray();
 
 	if (responsePending() && _device->bytesAvailable())
-		QTimer::singleShot(0, this, SLOT(device_readyRead()));
+		QTimer::singleShot(0, this, SLOT(readMore()));
 
 	return c;
 }
@@ -604,10 +604,21 @@ void Pillow::HttpClient::device_readyRead()
 
 	receive(bytesAvailable);
 
+	// The socket will not tell again about what it still holds, so keep reading while there is room for content.
+	if (_responsePending && _device->bytesAvailable() > 0 && _content.size() < bufferSize)
+		QTimer::singleShot(0, this, SLOT(readMore()));
+
 	// Response completed or got aborted in a callback, plus we might have got a new request while in callback.
 	sendPendingRequest();
 }
 
+void Pillow::HttpClient::readMore()
+{
+	// The response may have completed or failed in the meantime.
+	if (_responsePending && _device->bytesAvailable() > 0)
+		device_readyRead();
+}
+
 void Pillow::HttpClient::receive(qint64 length)
 {
 	if (length <= 0)
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index aa368ef..6dab6cc 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -228,6 +228,7 @@ namespace Pillow
 		void device_error(QAbstractSocket::SocketError error);
 		void device_connected();
 		void device_readyRead();
+		void readMore();
 		void sendPendingRequest();
 
 	private:
-- 
2.43.0


From b86a0372d41ee25cb7d733afea8a50c049901023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:05 +0000
Subject: [PATCH 31/52] fix: decoded content is not held back until more is
 received

---
 pillowcore/HttpClient.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index b4246d8..733e6a5 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -65,7 +65,11 @@ namespace Pillow
 				_inflateStream.next_out = buffer;
 				_inflateStream.avail_out = sizeof(buffer);
 
-				if (_streamBad || inflate(&_inflateStream, Z_NO_FLUSH) < 0) // Less than 0 is error.
+				const int result = _streamBad ? Z_STREAM_ERROR : inflate(&_inflateStream, Z_NO_FLUSH);
+				if (result == Z_BUF_ERROR)
+					break; // Nothing more to output for now.
+
+				if (result < 0) // Less than 0 is error.
 				{
 					qWarning("Pillow::GunzipContentTransformer::transform: error inflating input stream passing original content through.");
 					_streamBad = true;
@@ -74,7 +78,7 @@ namespace Pillow
 
 				_inflatedBuffer.append(reinterpret_cast<const char*>(buffer), sizeof(buffer) - _inflateStream.avail_out);
 			}
-			while (_inflateStream.avail_in > 0 && _inflateStream.avail_out == 0);
+			while (_inflateStream.avail_out == 0); // The stream may hold more output even when it has taken all input.
 
 			if (_streamBad)
 			{
-- 
2.43.0


From 811d5a4f36c7bfce6efc257dec208234311bf767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:35 +0000
Subject: [PATCH 32/52] fix: the request parser does not count a byte after the
 end of the head

Once the head ended, nread pointed one past the byte after it, which can lie
outside the text.
---
 pillowcore/HttpConnection.cpp | 2 +-
 pillowcore/parser/parser.c    | 5 -----
 pillowcore/parser/parser.rl   | 5 -----
 3 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index f0358ed..4af3bd1 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -174,7 +174,7 @@ inline void Pillow::HttpConnectionPrivate::processInput()
 		if (!_requestBuffer.isEmpty())
 			thin_http_parser_execute(&_parser, _requestBuffer.constData(), _requestBuffer.size(), _parser.nread);
 
-		// Once finished, the headers end where the body starts (nread is then one past it).
+		// Once finished, the headers end where the body starts.
 		const size_t headerLength = thin_http_parser_is_finished(&_parser) ? _parser.body_start : _parser.nread;
 		if (headerLength > Pillow::HttpConnection::MaximumRequestHeaderLength || thin_http_parser_has_error(&_parser))
 			return writeRequestErrorResponse(400); // Bad client Request!
diff --git a/pillowcore/parser/parser.c b/pillowcore/parser/parser.c
index 9fd44d4..c91a174 100644
--- a/pillowcore/parser/parser.c
+++ b/pillowcore/parser/parser.c
@@ -1212,11 +1212,6 @@ case 57:
   assert(parser->field_len <= len && "field has length longer than whole buffer");
   assert(parser->field_start < len && "field starts after buffer end");
 
-  if(parser->body_start) {
-    /* final \r\n combo encountered so stop right here */
-    parser->nread++;
-  }
-
   return(parser->nread);
 }
 
diff --git a/pillowcore/parser/parser.rl b/pillowcore/parser/parser.rl
index 27d9943..5bceea6 100644
--- a/pillowcore/parser/parser.rl
+++ b/pillowcore/parser/parser.rl
@@ -133,11 +133,6 @@ size_t thin_http_parser_execute(http_parser *parser, const char *buffer, size_t
   assert(parser->field_len <= len && "field has length longer than whole buffer");
   assert(parser->field_start < len && "field starts after buffer end");
 
-  if(parser->body_start) {
-    /* final \r\n combo encountered so stop right here */
-    parser->nread++;
-  }
-
   return(parser->nread);
 }
 
-- 
2.43.0


From 4de9119185517bc85cd9c37a54edf2176ad47ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:46 +0000
Subject: [PATCH 33/52] fix: the proxy does not encode the path a second time

---
 pillowcore/HttpHandlerProxy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 7ed6b73..e7ff835 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -31,7 +31,8 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	if (_proxiedUrl.isEmpty()) return false;
 
 	QUrl targetUrl = _proxiedUrl;
-	targetUrl.setEncodedPath(request->requestPath());
+	// The path is already encoded: keep its escapes as they are. setEncodedPath would escape them a second time.
+	targetUrl.setPath(QString::fromLatin1(request->requestPath().toPercentEncoding("!\"#$%&'()*+,/:;<=>?@[\\]^`{|}")), QUrl::TolerantMode);
 	if (!request->requestQueryString().isEmpty()) targetUrl.setEncodedQuery(request->requestQueryString());
 	if (!request->requestFragment().isEmpty()) targetUrl.setEncodedFragment(request->requestFragment());
 
-- 
2.43.0


From bdfd7daec9b6b77e12799f85ba1e8d3cf50fe0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:46 +0000
Subject: [PATCH 34/52] fix: the proxy forwards every value of a repeated
 header

---
 pillowcore/HttpHandlerProxy.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index e7ff835..4d1ec76 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -38,7 +38,13 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 
 	QNetworkRequest proxiedRequest(targetUrl);
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
-		proxiedRequest.setRawHeader(header.first, header.second);
+	{
+		// setRawHeader replaces: combine the values of a header that was received several times.
+		if (proxiedRequest.hasRawHeader(header.first))
+			proxiedRequest.setRawHeader(header.first, proxiedRequest.rawHeader(header.first) + ", " + header.second);
+		else
+			proxiedRequest.setRawHeader(header.first, header.second);
+	}
 
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
-- 
2.43.0


From 31875d9ae1db4645fc50d771d3829a54c6ec1106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:46 +0000
Subject: [PATCH 35/52] fix: the proxy relays encoded content as it was
 received

---
 pillowcore/HttpHandlerProxy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 4d1ec76..581a2fc 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -46,6 +46,11 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 			proxiedRequest.setRawHeader(header.first, header.second);
 	}
 
+	// Without an Accept-Encoding header, QNetworkAccessManager would add its own and decode the content, but keep
+	// the Content-Encoding header: the client would be sent content that is not what its headers say.
+	if (!proxiedRequest.hasRawHeader("Accept-Encoding"))
+		proxiedRequest.setRawHeader("Accept-Encoding", "identity");
+
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
 	return true;
-- 
2.43.0


From 93e819491eb761fbbcec172625eecf64507bbb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:46 +0000
Subject: [PATCH 36/52] fix: the proxy does not wait for the content of a HEAD
 response

---
 pillowcore/HttpHandlerProxy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 581a2fc..a366053 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -65,6 +65,10 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 		requestContentBuffer->open(QIODevice::ReadOnly);
 	}
 
+	// The response to a HEAD request has no content; a custom request would wait for it.
+	if (request->requestMethod() == "HEAD" && requestContentBuffer == NULL)
+		return _networkAccessManager->head(proxiedRequest);
+
 	QNetworkReply* proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
 
 	if (requestContentBuffer) requestContentBuffer->setParent(proxiedReply);
-- 
2.43.0


From 8c5c69eb2a15d89862ef31e2191d230863fdd964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:46 +0000
Subject: [PATCH 37/52] fix: the proxy relays each Set-Cookie header as a
 header of its own

---
 pillowcore/HttpHandlerProxy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index a366053..57d455f 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -133,7 +133,11 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 	QList<QPair<QByteArray, QByteArray> > headerList = _proxiedReply->rawHeaderPairs();
 	Pillow::HttpHeaderCollection headers; headers.reserve(headerList.size());
 	for (int i = 0, iE = headerList.size(); i < iE; ++i)
-		headers << headerList.at(i);
+	{
+		// QNetworkReply joins the values of repeated Set-Cookie headers with line feeds.
+		foreach (const QByteArray& value, headerList.at(i).second.split('\n'))
+			headers << Pillow::HttpHeader(headerList.at(i).first, value);
+	}
 	_request->writeHeaders(statusCode, headers);
 }
 
-- 
2.43.0


From f5b26764474d8b782668800f45d8430c3a4b0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:46 +0000
Subject: [PATCH 38/52] fix: the proxy relays responses with an error status
 like any other

---
 pillowcore/HttpHandlerProxy.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 57d455f..f5e4292 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -152,9 +152,35 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_readyRead()
 	if (!_broken) pump(_proxiedReply->readAll());
 }
 
+static bool isCompleteResponse(QNetworkReply* reply)
+{
+	// QNetworkReply also reports an error for each complete response whose status is 400 or more.
+	switch (reply->error())
+	{
+	case QNetworkReply::NoError:
+		return true;
+	case QNetworkReply::ProxyAuthenticationRequiredError: // 407
+	case QNetworkReply::ContentAccessDenied: // 403
+	case QNetworkReply::ContentOperationNotPermittedError: // 405
+	case QNetworkReply::ContentNotFoundError: // 404
+	case QNetworkReply::AuthenticationRequiredError: // 401
+	case QNetworkReply::ContentConflictError: // 409
+	case QNetworkReply::ContentGoneError: // 410
+	case QNetworkReply::UnknownContentError: // Other 4xx
+	case QNetworkReply::ProtocolInvalidOperationError: // 400
+	case QNetworkReply::InternalServerError: // 500
+	case QNetworkReply::OperationNotImplementedError: // 501
+	case QNetworkReply::ServiceUnavailableError: // 503
+	case QNetworkReply::UnknownServerError: // Other 5xx
+		return reply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt() >= 400;
+	default:
+		return false;
+	}
+}
+
 void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 {
-	if (_proxiedReply->error() == QNetworkReply::NoError)
+	if (isCompleteResponse(_proxiedReply))
 	{
 		sendHeaders(); // Make sure headers have been sent; can cause the pipe to tear down.
 
-- 
2.43.0


From 40f7c9f68b4c72d81ceaa76a8b25f512b9e37e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:46 +0000
Subject: [PATCH 39/52] fix: the proxy ends the client connection when the
 upstream response is cut short

---
 pillowcore/HttpHandlerProxy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index f5e4292..617c30a 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -198,6 +198,11 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 			// Finishing before sending headers means that we have a network or transport error. Let the client know about this.
 			_request->writeResponse(503);
 		}
+		else if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
+		{
+			// The rest of the content will never come. Do not let the client wait for it.
+			_request->close();
+		}
 	}
 }
 
-- 
2.43.0


From 66a2ce7487576ee8d00d3d1750f3d482ca5abfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:09 +0000
Subject: [PATCH 40/52] fix: the proxy sends the last chunk of chunked content

---
 pillowcore/HttpHandlerProxy.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 617c30a..109b54d 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -186,9 +186,12 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 
 		if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
 		{
-			// The client request will still be in this state if the content-length was not specified. We must
-			// close the connection to indicate the end of the content stream.
-			_request->close();
+			// The client request will still be in this state if the content-length was not specified: indicate the
+			// end of the content stream, with the last chunk or by closing the connection.
+			if (_request->responseContentLength() < 0)
+				_request->endContent();
+			else
+				_request->close();
 		}
 	}
 	else
-- 
2.43.0


From 52dfe401b251bc14c1be2d65466f775c9e0491ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:09 +0000
Subject: [PATCH 41/52] fix: the proxy ends the client request when the
 upstream reply disappears

---
 pillowcore/HttpHandlerProxy.cpp | 14 +++++++++++++-
 pillowcore/HttpHandlerProxy.h   |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 109b54d..0209bfd 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -94,7 +94,7 @@ Pillow::HttpHandlerProxyPipe::HttpHandlerProxyPipe(Pillow::HttpConnection *reque
 	connect(request, SIGNAL(destroyed()), this, SLOT(teardown()));
 	connect(proxiedReply, SIGNAL(readyRead()), this, SLOT(proxiedReply_readyRead()));
 	connect(proxiedReply, SIGNAL(finished()), this, SLOT(proxiedReply_finished()));
-	connect(proxiedReply, SIGNAL(destroyed()), this, SLOT(teardown()));
+	connect(proxiedReply, SIGNAL(destroyed()), this, SLOT(proxiedReply_destroyed()));
 }
 
 Pillow::HttpHandlerProxyPipe::~HttpHandlerProxyPipe()
@@ -209,6 +209,18 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 	}
 }
 
+void Pillow::HttpHandlerProxyPipe::proxiedReply_destroyed()
+{
+	// The rest of the response will never come. Do not let the client wait for it.
+	_proxiedReply = NULL;
+	if (!_broken && _request->state() == Pillow::HttpConnection::SendingHeaders)
+		_request->writeResponse(503);
+	else if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
+		_request->close();
+
+	if (!_broken) teardown();
+}
+
 //
 // Pillow::ElasticNetworkAccessManager
 //
diff --git a/pillowcore/HttpHandlerProxy.h b/pillowcore/HttpHandlerProxy.h
index 8bd9a8a..eb8b74f 100644
--- a/pillowcore/HttpHandlerProxy.h
+++ b/pillowcore/HttpHandlerProxy.h
@@ -72,6 +72,7 @@ namespace Pillow
 	private slots:
 		void proxiedReply_readyRead();
 		void proxiedReply_finished();
+		void proxiedReply_destroyed();
 	};
 
 	class PILLOWCORE_EXPORT ElasticNetworkAccessManager : public QNetworkAccessManager
-- 
2.43.0


From dae6378a989cafefca7ca847804129a07704a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:20 +0000
Subject: [PATCH 42/52] fix: registered status codes are not turned into 500

---
 pillowcore/HttpHelpers.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pillowcore/HttpHelpers.cpp b/pillowcore/HttpHelpers.cpp
index 13d3c32..05e387d 100644
--- a/pillowcore/HttpHelpers.cpp
+++ b/pillowcore/HttpHelpers.cpp
@@ -29,6 +29,8 @@ namespace Pillow
 				{
 					case 100: return "100 Continue";
 					case 101: return "101 Switching Protocols";
+					case 102: return "102 Processing";
+					case 103: return "103 Early Hints";
 
 					case 200: return "200 OK";
 					case 201: return "201 Created";
@@ -37,6 +39,9 @@ namespace Pillow
 					case 204: return "204 No Content";
 					case 205: return "205 Reset Content";
 					case 206: return "206 Partial Content";
+					case 207: return "207 Multi-Status";
+					case 208: return "208 Already Reported";
+					case 226: return "226 IM Used";
 
 					case 300: return "300 Multiple Choices";
 					case 301: return "301 Moved Permanently";
@@ -45,9 +50,11 @@ namespace Pillow
 					case 304: return "304 Not Modified";
 					case 305: return "305 Use Proxy";
 					case 307: return "307 Temporary Redirect";
+					case 308: return "308 Permanent Redirect";
 
 					case 400: return "400 Bad Request";
 					case 401: return "401 Unauthorized";
+					case 402: return "402 Payment Required";
 					case 403: return "403 Forbidden";
 					case 404: return "404 Not Found";
 					case 405: return "405 Method Not Allowed";
@@ -63,6 +70,16 @@ namespace Pillow
 					case 415: return "415 Unsupported Media Type";
 					case 416: return "416 Requested Range Not Satisfiable";
 					case 417: return "417 Expectation Failed";
+					case 421: return "421 Misdirected Request";
+					case 422: return "422 Unprocessable Entity";
+					case 423: return "423 Locked";
+					case 424: return "424 Failed Dependency";
+					case 425: return "425 Too Early";
+					case 426: return "426 Upgrade Required";
+					case 428: return "428 Precondition Required";
+					case 429: return "429 Too Many Requests";
+					case 431: return "431 Request Header Fields Too Large";
+					case 451: return "451 Unavailable For Legal Reasons";
 
 					case 500: return "500 Internal Server Error";
 					case 501: return "501 Not Implemented";
@@ -70,6 +87,11 @@ namespace Pillow
 					case 503: return "503 Service Unavailable";
 					case 504: return "504 Gateway Timeout";
 					case 505: return "505 HTTP Version Not Supported";
+					case 506: return "506 Variant Also Negotiates";
+					case 507: return "507 Insufficient Storage";
+					case 508: return "508 Loop Detected";
+					case 510: return "510 Not Extended";
+					case 511: return "511 Network Authentication Required";
 				}
 				return NULL;
 			}
-- 
2.43.0


From 3531f8cce5d99a3bfd39289f1afca242d58cc9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:01 +0000
Subject: [PATCH 43/52] fix: the proxy does not send one client's cookies with
 the requests of others

---
 pillowcore/HttpHandlerProxy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 0209bfd..b449c7c 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -37,6 +37,11 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	if (!request->requestFragment().isEmpty()) targetUrl.setEncodedFragment(request->requestFragment());
 
 	QNetworkRequest proxiedRequest(targetUrl);
+
+	// Cookies belong to the clients: never keep one client's cookies to send them with the requests of another.
+	proxiedRequest.setAttribute(QNetworkRequest::CookieLoadControlAttribute, QNetworkRequest::Manual);
+	proxiedRequest.setAttribute(QNetworkRequest::CookieSaveControlAttribute, QNetworkRequest::Manual);
+
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
 	{
 		// setRawHeader replaces: combine the values of a header that was received several times.
-- 
2.43.0


From bcb9562db25685606d3ec37d89fe8d0bbf5ac285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:01 +0000
Subject: [PATCH 44/52] fix: the proxied request has its own copy of the
 request content

---
 pillowcore/HttpHandlerProxy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index b449c7c..4bc07c2 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -66,7 +66,9 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 	QBuffer* requestContentBuffer = NULL;
 	if (request->requestContent().size() > 0)
 	{
-		requestContentBuffer = new QBuffer(&(const_cast<QByteArray&>(request->requestContent())));
+		// Copy the content: it goes away with the request, which may end before the proxied request does.
+		requestContentBuffer = new QBuffer();
+		requestContentBuffer->setData(request->requestContent().constData(), request->requestContent().size());
 		requestContentBuffer->open(QIODevice::ReadOnly);
 	}
 
-- 
2.43.0


From 519765c68054a8087c7c29a838231e8c9e541303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:29 +0000
Subject: [PATCH 45/52] fix: a failed reply keeps its error

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 733e6a5..46e71b9 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -903,6 +903,7 @@ namespace Pillow
 				case Pillow::HttpClient::AbortedError: error = QNetworkReply::OperationCanceledError; break;
 				}
 
+				setError(error, QLatin1String("The request failed."));
 				emit this->error(error);
 			}
 
-- 
2.43.0


From ffc9b4859f4442a7563f68d0b747bd06a48d1e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:29 +0000
Subject: [PATCH 46/52] fix: a reply has every value of a repeated header

---
 pillowcore/HttpClient.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 46e71b9..c5829cd 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -851,16 +851,22 @@ namespace Pillow
 
 			foreach (const Pillow::HttpHeader &header, _client->headers())
 			{
-				setRawHeader(header.first, header.second);
-
-				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("set-cookie")))
+				// setRawHeader replaces: combine the values of a header that was received several times, as Qt does.
+				const bool isCookie = Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("set-cookie"));
+				if (hasRawHeader(header.first))
+					setRawHeader(header.first, rawHeader(header.first) + (isCookie ? "\n" : ", ") + header.second);
+				else
+					setRawHeader(header.first, header.second);
+
+				if (isCookie)
 					cookies += QNetworkCookie::parseCookies(header.second);
 				else if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("location")))
 					setAttribute(QNetworkRequest::RedirectionTargetAttribute, QUrl::fromEncoded(header.second));
 			}
 
-			if (!cookies.isEmpty())
-				setHeader(QNetworkRequest::SetCookieHeader, QVariant::fromValue(cookies));
+			// Also sets the cooked header, keeping the values as they were received.
+			if (hasRawHeader("Set-Cookie"))
+				setRawHeader("Set-Cookie", rawHeader("Set-Cookie"));
 
 			QNetworkAccessManager *nam = manager();
 			if (nam)
-- 
2.43.0


From 7a7a9607c357202561ab8e0646bdde5fe9f56ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:44 +0000
Subject: [PATCH 47/52] fix: a reply has a redirection target only when
 redirected

---
 pillowcore/HttpClient.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index c5829cd..b9c31da 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -860,10 +860,12 @@ namespace Pillow
 
 				if (isCookie)
 					cookies += QNetworkCookie::parseCookies(header.second);
-				else if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("location")))
-					setAttribute(QNetworkRequest::RedirectionTargetAttribute, QUrl::fromEncoded(header.second));
 			}
 
+			// The Location header is a redirection target in redirections only.
+			if (_client->redirected() && hasRawHeader("Location"))
+				setAttribute(QNetworkRequest::RedirectionTargetAttribute, QUrl::fromEncoded(_client->redirectionLocation()));
+
 			// Also sets the cooked header, keeping the values as they were received.
 			if (hasRawHeader("Set-Cookie"))
 				setRawHeader("Set-Cookie", rawHeader("Set-Cookie"));
-- 
2.43.0


From 81589a51c6bf512ec420b908f2e2999e7f0eb5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:44 +0000
Subject: [PATCH 48/52] fix: a failed reply does not touch its client any more

---
 pillowcore/HttpClient.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index b9c31da..8e6ee84 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -898,11 +898,15 @@ namespace Pillow
 		{
 			disconnect(_client, 0, this, 0);
 
-			if (_client->error() != Pillow::HttpClient::NoError)
+			// From here on the client may be used by another reply already: never touch it again.
+			const Pillow::HttpClient::Error clientError = _client->error();
+			_client = 0;
+
+			if (clientError != Pillow::HttpClient::NoError)
 			{
 				QNetworkReply::NetworkError error = QNetworkReply::UnknownNetworkError;
 
-				switch (_client->error())
+				switch (clientError)
 				{
 				case Pillow::HttpClient::NoError: error = QNetworkReply::NoError; break;
 				case Pillow::HttpClient::NetworkError: error = QNetworkReply::UnknownNetworkError; break;
@@ -915,7 +919,6 @@ namespace Pillow
 				emit this->error(error);
 			}
 
-			_client = 0;
 			setFinished(true);
 			emit finished();
 		}
-- 
2.43.0


From 96f9dc81c79ebbe674758b585dc53fb61797637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:44 +0000
Subject: [PATCH 49/52] fix: a reply does not outlive its manager

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 8e6ee84..5bb227c 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -978,6 +978,7 @@ QNetworkReply *Pillow::NetworkAccessManager::createRequest(QNetworkAccessManager
 	}
 
 	Pillow::NetworkReply *reply = new Pillow::NetworkReply(client, op, request);
+	reply->setParent(this); // As Qt's own replies: it must not outlive the client it refers to.
 
 	Pillow::HttpHeaderCollection headers;
 	foreach (const QByteArray &headerName, request.rawHeaderList())
-- 
2.43.0


From 93569bc0ea7ded9086f92cd3fa4d8fa08fd61d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:56 +0000
Subject: [PATCH 50/52] fix: a reply has the headers that have an empty value

---
 pillowcore/HttpClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 5bb227c..12dc4e4 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -856,7 +856,7 @@ namespace Pillow
 				if (hasRawHeader(header.first))
 					setRawHeader(header.first, rawHeader(header.first) + (isCookie ? "\n" : ", ") + header.second);
 				else
-					setRawHeader(header.first, header.second);
+					setRawHeader(header.first, header.second.isNull() ? QByteArray("") : header.second); // A null value would remove the header.
 
 				if (isCookie)
 					cookies += QNetworkCookie::parseCookies(header.second);
-- 
2.43.0


From de3dd9d63f7bc995f2f850c561b10cbbc201ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:49 +0000
Subject: [PATCH 51/52] fix: a connection that serves another socket from
 within closed() keeps it

---
 pillowcore/HttpConnection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 4af3bd1..2b7948e 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -377,6 +377,7 @@ inline void Pillow::HttpConnectionPrivate::drain()
 {
 	if (_state != Pillow::HttpConnection::Flushing) return;
 	flush();
+	if (_state != Pillow::HttpConnection::Flushing) return; // The connection was lost while flushing.
 	if (_outputDevice != 0 && _outputDevice->bytesToWrite() == 0) transitionToClosed();
 }
 
@@ -399,10 +400,11 @@ inline void Pillow::HttpConnectionPrivate::transitionToClosed()
 
 	if (_inputDevice && _inputDevice->isOpen()) _inputDevice->close();
 	if (_outputDevice && (_inputDevice != _outputDevice) && _outputDevice->isOpen()) _outputDevice->close();
-	emit q_ptr->closed(q_ptr);
-
 	QObject::disconnect(_inputDevice, 0, q_ptr, 0);
 	if (_inputDevice != _outputDevice) QObject::disconnect(_outputDevice, 0, q_ptr, 0);
+	emit q_ptr->closed(q_ptr);
+
+	if (_state != Pillow::HttpConnection::Closed) return; // One of the slots had the connection serve other devices already.
 	_inputDevice = 0;
 	_outputDevice = 0;
 }
-- 
2.43.0


From 7f7410d46309ebf21cd1d18863b00a1d065e4cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:21 +0000
Subject: [PATCH 52/52] fix: a surplus connection is not deleted while it is in
 use

---
 pillowcore/HttpServer.cpp | 30 +++++++++++++++++++++++++++---
 pillowcore/HttpServer.h   |  2 ++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpServer.cpp b/pillowcore/HttpServer.cpp
index 395c2dc..a4a655a 100644
--- a/pillowcore/HttpServer.cpp
+++ b/pillowcore/HttpServer.cpp
@@ -1,5 +1,6 @@
 #include "HttpServer.h"
 #include "HttpConnection.h"
+#include <QtCore/QTimer>
 #include <QtNetwork/QTcpSocket>
 #include <QtNetwork/QLocalSocket>
 using namespace Pillow;
@@ -18,6 +19,7 @@ namespace Pillow
 	public:
 		QObject* q_ptr;
 		QList<HttpConnection*> reservedConnections;
+		QList<HttpConnection*> surplusConnections;
 
 	public:
 		HttpServerPrivate(QObject* server)
@@ -51,10 +53,22 @@ namespace Pillow
 
 		void putConnection(HttpConnection* connection)
 		{
-			while (reservedConnections.size() >= MaximumReserveCount)
-				delete reservedConnections.takeLast();
+			if (reservedConnections.size() < MaximumReserveCount)
+			{
+				reservedConnections.append(connection);
+				return;
+			}
+
+			// Connections are put back from within their own closed() signal: a surplus one is still in use and can only be deleted later.
+			if (surplusConnections.isEmpty())
+				QTimer::singleShot(0, q_ptr, SLOT(deleteSurplusConnections()));
+			surplusConnections.append(connection);
+		}
 
-			reservedConnections.append(connection);
+		void deleteSurplusConnections()
+		{
+			while (!surplusConnections.isEmpty())
+				delete surplusConnections.takeLast();
 		}
 	};
 }
@@ -104,6 +118,11 @@ void HttpServer::connection_closed(Pillow::HttpConnection *connection)
 	d_ptr->putConnection(connection);
 }
 
+void HttpServer::deleteSurplusConnections()
+{
+	d_ptr->deleteSurplusConnections();
+}
+
 HttpConnection* Pillow::HttpServer::createHttpConnection()
 {
 	return d_ptr->takeConnection();
@@ -141,3 +160,8 @@ void HttpLocalServer::connection_closed(Pillow::HttpConnection *connection)
 	connection->inputDevice()->deleteLater();
 	d_ptr->putConnection(connection);
 }
+
+void HttpLocalServer::deleteSurplusConnections()
+{
+	d_ptr->deleteSurplusConnections();
+}
diff --git a/pillowcore/HttpServer.h b/pillowcore/HttpServer.h
index 3af7276..7264db3 100644
--- a/pillowcore/HttpServer.h
+++ b/pillowcore/HttpServer.h
@@ -32,6 +32,7 @@ namespace Pillow
 
 	private slots:
 		void connection_closed(Pillow::HttpConnection* request);
+		void deleteSurplusConnections();
 
 	protected:
 #if QT_VERSION < QT_VERSION_CHECK(5, 0, 0)
@@ -63,6 +64,7 @@ namespace Pillow
 	private slots:
 		void this_newConnection();
 		void connection_closed(Pillow::HttpConnection* request);
+		void deleteSurplusConnections();
 
 	public:
 		HttpLocalServer(QObject* parent = 0);
-- 
2.43.0

