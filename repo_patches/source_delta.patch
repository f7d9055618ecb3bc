From 6e8aa02e6963a3e226dde8583fd75db35b75ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:55 +0000
Subject: [PATCH 01/29] fix: deliver every complete message of an HTTP/2 stream
 exactly once

Message framing lost or corrupted messages whose size header was split
between chunks, messages that arrived together with the end of the stream
and zero-size messages, and read the header out of bounds.
---
 src/grpc/qgrpchttp2channel.cpp | 84 ++++++++++++++--------------------
 1 file changed, 34 insertions(+), 50 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 5d02b15..38d51c5 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -99,17 +99,10 @@ const int GrpcMessageSizeHeaderSize = 5;
 namespace QtProtobuf {
 //! \private
 struct QGrpcHttp2ChannelPrivate {
-    //! \private
-    struct ExpectedData {
-        int expectedSize;
-        QByteArray container;
-    };
-
     QUrl url;
     QNetworkAccessManager nm;
     std::unique_ptr<QAbstractGrpcCredentials> credentials;
     QSslConfiguration sslConfig;
-    std::unordered_map<QNetworkReply *, ExpectedData> activeStreamReplies;
     QObject lambdaContext;
 
     QNetworkReply *post(const QString &method, const QString &service, const QByteArray &args, bool stream = false) {
@@ -192,8 +185,19 @@ struct QGrpcHttp2ChannelPrivate {
         }
     }
 
-    static int getExpectedDataSize(const QByteArray &container) {
-        return qFromBigEndian(*reinterpret_cast<const int *>(container.data() + 1)) + GrpcMessageSizeHeaderSize;
+    //! \private
+    //! Takes the first complete message out of \p container, if there is one
+    static bool takeMessage(QByteArray &container, QByteArray &message) {
+        if (container.size() < GrpcMessageSizeHeaderSize) {
+            return false;
+        }
+        const quint32 size = qFromBigEndian<quint32>(container.constData() + 1);
+        if (quint64(container.size()) < quint64(size) + GrpcMessageSizeHeaderSize) {
+            return false;
+        }
+        message = container.mid(GrpcMessageSizeHeaderSize, int(size));
+        container.remove(0, GrpcMessageSizeHeaderSize + int(size));
+        return true;
     }
 };
 
@@ -277,47 +281,21 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
     std::shared_ptr<QMetaObject::Connection> finishConnection(new QMetaObject::Connection);
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
     std::shared_ptr<QMetaObject::Connection> readConnection(new QMetaObject::Connection);
-    *readConnection = QObject::connect(networkReply, &QNetworkReply::readyRead, grpcStream, [networkReply, grpcStream, this]() {
-        auto replyIt = dPtr->activeStreamReplies.find(networkReply);
-
+    //Received data, that doesn't make a complete message yet
+    std::shared_ptr<QByteArray> container(new QByteArray);
+    *readConnection = QObject::connect(networkReply, &QNetworkReply::readyRead, grpcStream, [networkReply, grpcStream, container, readConnection]() {
         QByteArray data = networkReply->readAll();
         qProtoDebug() << "RECV" << data.size();
 
-        if (replyIt == dPtr->activeStreamReplies.end()) {
-            qProtoDebug() << data.toHex();
-            int expectedDataSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(data);
-            qProtoDebug() << "First chunk received: " << data.size() << " expectedDataSize: " << expectedDataSize;
-
-            if (expectedDataSize == 0) {
-                grpcStream->handler(QByteArray());
-                return;
-            }
-
-            QGrpcHttp2ChannelPrivate::ExpectedData dataContainer{expectedDataSize, QByteArray{}};
-            replyIt = dPtr->activeStreamReplies.insert({networkReply, dataContainer}).first;
-        }
-
-        QGrpcHttp2ChannelPrivate::ExpectedData &dataContainer = replyIt->second;
-        dataContainer.container.append(data);
-
-        qProtoDebug() << "Proceed chunk: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-        while (dataContainer.container.size() >= dataContainer.expectedSize && !networkReply->isFinished()) {
-            qProtoDebug() << "Full data received: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-            grpcStream->handler(dataContainer.container.mid(GrpcMessageSizeHeaderSize, dataContainer.expectedSize - GrpcMessageSizeHeaderSize));
-            dataContainer.container.remove(0, dataContainer.expectedSize);
-            if (dataContainer.container.size() > GrpcMessageSizeHeaderSize) {
-                dataContainer.expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(dataContainer.container);
-            } else if (dataContainer.container.size() > 0) {
-                qProtoWarning() << "Invalid container size received, size header is less than 5 bytes";
-            }
-        }
-
-        if (dataContainer.container.size() < GrpcMessageSizeHeaderSize || networkReply->isFinished()) {
-            dPtr->activeStreamReplies.erase(replyIt);
+        container->append(data);
+        QByteArray message;
+        while (*readConnection && QGrpcHttp2ChannelPrivate::takeMessage(*container, message)) {
+            qProtoDebug() << "Full data received: " << message.size() << " left in container: " << container->size();
+            grpcStream->handler(message);
         }
     });
 
-    QObject::connect(client, &QAbstractGrpcClient::destroyed, networkReply, [networkReply, finishConnection, abortConnection, readConnection, this]() {
+    QObject::connect(client, &QAbstractGrpcClient::destroyed, networkReply, [networkReply, finishConnection, abortConnection, readConnection]() {
         if (*readConnection) {
             QObject::disconnect(*readConnection);
         }
@@ -327,12 +305,22 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         if (*finishConnection) {
             QObject::disconnect(*finishConnection);
         }
-        dPtr->activeStreamReplies.erase(networkReply);
         QGrpcHttp2ChannelPrivate::abortNetworkReply(networkReply);
         networkReply->deleteLater();
     });
 
-    *finishConnection = QObject::connect(networkReply, &QNetworkReply::finished, grpcStream, [grpcStream, service, networkReply, abortConnection, readConnection, finishConnection, client, this]() {
+    *finishConnection = QObject::connect(networkReply, &QNetworkReply::finished, grpcStream, [grpcStream, service, networkReply, abortConnection, readConnection, finishConnection, container, client, this]() {
+        //Messages received together with the end of stream are still part of it
+        container->append(networkReply->readAll());
+        QByteArray message;
+        while (*finishConnection && QGrpcHttp2ChannelPrivate::takeMessage(*container, message)) {
+            grpcStream->handler(message);
+        }
+        if (!*finishConnection) {
+            //Stream was aborted by one of its handlers
+            return;
+        }
+
         QString errorString = networkReply->errorString();
         QNetworkReply::NetworkError networkError = networkReply->error();
         if (*readConnection) {
@@ -342,7 +330,6 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
             QObject::disconnect(*abortConnection);
         }
 
-        dPtr->activeStreamReplies.erase(networkReply);
         QGrpcHttp2ChannelPrivate::abortNetworkReply(networkReply);
         networkReply->deleteLater();
         qProtoWarning() << grpcStream->method() << "call" << service << "stream finished: " << errorString;
@@ -352,9 +339,6 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
             stream(grpcStream, service, client);
             break;
         case QNetworkReply::NoError: {
-            // Reply is closed without network error, but may contain an unhandled data
-            // TODO: processReply returns the data, that might need the processing. It's should be taken into account in
-            // new HTTP/2 channel implementation.
             QGrpcStatus::StatusCode grpcStatus;
             QGrpcHttp2ChannelPrivate::processReply(networkReply, grpcStatus);
             if (grpcStatus != QGrpcStatus::StatusCode::Ok) {
-- 
2.43.0


From 3b8ba5b6679e7fc8a8ecaae9a56dfe39e8db6519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:55 +0000
Subject: [PATCH 02/29] fix: call timeout must not delete a reply that is
 already finished

---
 src/grpc/qgrpchttp2channel.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 38d51c5..6621054 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -140,7 +140,10 @@ struct QGrpcHttp2ChannelPrivate {
         if (!stream) {
             //TODO: Add configurable timeout logic
             QTimer::singleShot(6000, networkReply, [networkReply]() {
-                QGrpcHttp2ChannelPrivate::abortNetworkReply(networkReply);
+                //Finished reply is deleted by its owner, that might still use it
+                if (networkReply->isRunning()) {
+                    networkReply->abort();
+                }
             });
         }
         return networkReply;
-- 
2.43.0


From b15a97d81ab49f1117d1d141491be2c4b044a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:55 +0000
Subject: [PATCH 03/29] fix: cancel pending HTTP/2 calls when their client is
 destroyed

---
 src/grpc/qgrpchttp2channel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 6621054..0d5d6e5 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -274,6 +274,9 @@ void QGrpcHttp2Channel::call(const QString &method, const QString &service, cons
             networkReply->deleteLater();
         }
     });
+
+    //Call doesn't have a receiver anymore, e.g. client was destroyed
+    QObject::connect(reply, &QObject::destroyed, networkReply, &QObject::deleteLater);
 }
 
 void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service, QAbstractGrpcClient *client)
-- 
2.43.0


From fd094fde90a49b9244500f0434997fd8ea5a9a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:55 +0000
Subject: [PATCH 04/29] fix: abort all active streams when channel is replaced

Aborting a stream removes it from the container that was iterated.
---
 src/grpc/qabstractgrpcclient.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 66f8d7b..a23312a 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -63,11 +63,12 @@ void QAbstractGrpcClient::attachChannel(const std::shared_ptr<QAbstractGrpcChann
                            "You have to be confident that channel routines are working in the same thread as QAbstractGrpcClient";
         throw std::runtime_error("Call from another thread");
     }
-    for (auto stream : dPtr->activeStreams) {
-        stream->abort();
-    }
+    //Previous channel has to outlive streams that are running on top of it
+    const auto previousChannel = dPtr->channel;
     dPtr->channel = channel;
-    for (auto stream : dPtr->activeStreams) {
+    //Aborted streams are removed from the list of active streams
+    const auto streams = dPtr->activeStreams;
+    for (auto stream : streams) {
         stream->abort();
     }
 }
-- 
2.43.0


From 50a6ef396b59f14c34c164cf857e1ba116103b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:55 +0000
Subject: [PATCH 05/29] fix: don't restore a stream that was aborted while it
 waited for reconnection

---
 src/grpc/qabstractgrpcclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index a23312a..cb0f2d0 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -160,7 +160,8 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
             //TODO: Make timeout configurable from channel settings
             QTimer::singleShot(1000, this, [this, weakStream, method = grpcStream->method()] {
                 auto stream = weakStream.lock();
-                if (stream) {
+                const bool active = std::find(std::begin(dPtr->activeStreams), std::end(dPtr->activeStreams), stream) != std::end(dPtr->activeStreams);
+                if (stream && active) {
                     dPtr->channel->stream(stream.get(), dPtr->service, this);
                 } else {
                     qProtoDebug() << "Stream for " << dPtr->service << "method" << method << " will not be restored by timeout.";
-- 
2.43.0


From 3f52bb44dabdcb5d519f947a31440507837682d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:13 +0000
Subject: [PATCH 06/29] fix: native channel reports streams successfully closed
 by server

---
 src/grpc/qgrpcchannel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 01dcd00..1d9a89a 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -288,6 +288,8 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         if (sub->status.code() != QGrpcStatus::Ok)
         {
             stream->error(sub->status);
+        } else {
+            stream->finished();
         }
     });
 
-- 
2.43.0


From 54f8001374e0f67af7f800f16dac26011aca5fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:13 +0000
Subject: [PATCH 07/29] fix: native channel doesn't deliver messages of aborted
 streams

---
 src/grpc/qgrpcchannel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 1d9a89a..d5e8f6e 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -273,8 +273,11 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         [](QGrpcChannelStream * sub) { sub->deleteLater(); }
     );
 
-    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream](const QByteArray &data) {
-        stream->handler(data);
+    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream, readConnection](const QByteArray &data) {
+        //Messages that are still queued after stream was aborted have to be ignored
+        if (*readConnection) {
+            stream->handler(data);
+        }
     });
 
     *connection = QObject::connect(sub.get(), &QGrpcChannelStream::finished, stream, [sub, stream, readConnection, abortConnection, service, connection, clientConnection](){
-- 
2.43.0


From 1c273677ec40cc0bfe490f5663d8fb516a6946e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:13 +0000
Subject: [PATCH 08/29] fix: native calls keep the channel they are running on
 alive

---
 src/grpc/qgrpcchannel.cpp | 8 ++++----
 src/grpc/qgrpcchannel_p.h | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index d5e8f6e..35f9aa7 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -142,7 +142,7 @@ void QGrpcChannelStream::cancel() {
     context.TryCancel();
 }
 
-QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent) {
+QGrpcChannelCall::QGrpcChannelCall(const std::shared_ptr<grpc::Channel> &channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent) {
     grpc::ByteBuffer request;
     parseQByteArray(data, request);
 
@@ -151,7 +151,7 @@ QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method
         QByteArray data;
         grpc::Status status;
 
-        status = grpc::internal::BlockingUnaryCall(channel,
+        status = grpc::internal::BlockingUnaryCall(channel.get(),
             grpc::internal::RpcMethod(method.toStdString().c_str(), grpc::internal::RpcMethod::NORMAL_RPC),
             &context, request, &response
         );
@@ -213,7 +213,7 @@ void QGrpcChannelPrivate::call(const QString &method, const QString &service, co
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
 
     call.reset(
-        new QGrpcChannelCall(m_channel.get(), rpcName, args, reply),
+        new QGrpcChannelCall(m_channel, rpcName, args, reply),
         [](QGrpcChannelCall * c) { c->deleteLater(); }
     );
 
@@ -245,7 +245,7 @@ QGrpcStatus QGrpcChannelPrivate::call(const QString &method, const QString &serv
     QEventLoop loop;
 
     QString rpcName = QString("/%1/%2").arg(service).arg(method);
-    QGrpcChannelCall call(m_channel.get(), rpcName, args);
+    QGrpcChannelCall call(m_channel, rpcName, args);
 
     QObject::connect(&call, &QGrpcChannelCall::finished, &loop, &QEventLoop::quit);
 
diff --git a/src/grpc/qgrpcchannel_p.h b/src/grpc/qgrpcchannel_p.h
index 8cf3b65..bf62e1c 100644
--- a/src/grpc/qgrpcchannel_p.h
+++ b/src/grpc/qgrpcchannel_p.h
@@ -73,7 +73,7 @@ class QGrpcChannelCall : public QObject {
     Q_OBJECT;
 
 public:
-    QGrpcChannelCall(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
+    QGrpcChannelCall(const std::shared_ptr<grpc::Channel> &channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
     ~QGrpcChannelCall();
 
     void cancel();
-- 
2.43.0


From 976884bea41b779d6fd34e77cc3e5f7174cc2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:13 +0000
Subject: [PATCH 09/29] fix: subscribing to a stream from its own handler is
 safe

---
 src/grpc/qgrpcstream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index d62f396..90e4b4f 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -73,7 +73,8 @@ public:
      */
     void handler(const QByteArray& data) {
         setData(data);
-        for (auto handler : m_handlers) {
+        const auto handlers = m_handlers; //May be extended while handlers are called
+        for (auto handler : handlers) {
             handler(data);
         }
         messageReceived();
-- 
2.43.0


From d4d64dede51e81c7cbfda5419fa7f44dc4db71a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:44 +0000
Subject: [PATCH 10/29] fix: abort of a completed call or stream does nothing

It reported a second outcome for the same call, and the second abort of a
stream dropped a new stream with the same method and argument.
---
 src/grpc/qgrpccallreply.cpp |  3 +++
 src/grpc/qgrpccallreply.h   |  7 ++++++-
 src/grpc/qgrpcstream.cpp    | 10 ++++++++--
 src/grpc/qgrpcstream.h      |  1 +
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/grpc/qgrpccallreply.cpp b/src/grpc/qgrpccallreply.cpp
index 094c08c..ea01bbe 100644
--- a/src/grpc/qgrpccallreply.cpp
+++ b/src/grpc/qgrpccallreply.cpp
@@ -32,6 +32,9 @@ using namespace QtProtobuf;
 void QGrpcCallReply::abort()
 {
     auto abortFunc = [this]() {
+        if (m_completed) {
+            return;
+        }
         this->setData({});
         this->error({QGrpcStatus::StatusCode::Aborted, QLatin1String("Call aborted by user or timeout")});
     };
diff --git a/src/grpc/qgrpccallreply.h b/src/grpc/qgrpccallreply.h
index 0ff5666..0c03249 100644
--- a/src/grpc/qgrpccallreply.h
+++ b/src/grpc/qgrpccallreply.h
@@ -76,7 +76,10 @@ public:
 protected:
     //! \private
     QGrpcCallReply(QAbstractGrpcClient *parent) : QGrpcAsyncOperationBase(parent)
-    {}
+    {
+        connect(this, &QGrpcCallReply::finished, this, [this] { m_completed = true; });
+        connect(this, &QGrpcCallReply::error, this, [this] { m_completed = true; });
+    }
     //! \private
     ~QGrpcCallReply() = default;
 
@@ -86,5 +89,7 @@ private:
     Q_DISABLE_COPY_MOVE(QGrpcCallReply)
 
     friend class QAbstractGrpcClient;
+
+    bool m_completed = false;
 };
 }
diff --git a/src/grpc/qgrpcstream.cpp b/src/grpc/qgrpcstream.cpp
index 15301ef..0400db1 100644
--- a/src/grpc/qgrpcstream.cpp
+++ b/src/grpc/qgrpcstream.cpp
@@ -34,6 +34,7 @@ QGrpcStream::QGrpcStream(const QString &method, const QByteArray &arg, const Str
   , m_method(method)
   , m_arg(arg)
 {
+    connect(this, &QGrpcStream::finished, this, [this] { m_completed = true; });
     if (handler) {
         m_handlers.push_back(handler);
     }
@@ -48,9 +49,14 @@ void QGrpcStream::addHandler(const StreamHandler &handler)
 
 void QGrpcStream::abort()
 {
+    auto abortFunc = [this]() {
+        if (!m_completed) {
+            finished();
+        }
+    };
     if (thread() != QThread::currentThread()) {
-        QMetaObject::invokeMethod(this, &QGrpcStream::finished, Qt::BlockingQueuedConnection);
+        QMetaObject::invokeMethod(this, abortFunc, Qt::BlockingQueuedConnection);
     } else {
-        finished();
+        abortFunc();
     }
 }
diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index 90e4b4f..f995d7a 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -106,6 +106,7 @@ private:
     QString m_method;
     QByteArray m_arg;
     std::vector<StreamHandler> m_handlers;
+    bool m_completed = false;
 };
 
 }
-- 
2.43.0


From d8be1b2dce07e0f5fbad2fa1865caa87abe54cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:44 +0000
Subject: [PATCH 11/29] fix: handles of calls and streams may be released after
 the client is destroyed

---
 src/grpc/qabstractgrpcclient.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index cb0f2d0..ee4f3a2 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -29,6 +29,7 @@
 #include "qgrpcstream.h"
 #include "qprotobufserializerregistry_p.h"
 
+#include <QPointer>
 #include <QTimer>
 #include <QThread>
 
@@ -106,7 +107,13 @@ QGrpcCallReplyShared QAbstractGrpcClient::call(const QString &method, const QByt
                                       return call(method, arg);
                                   }, Qt::BlockingQueuedConnection, &reply);
     } else if (dPtr->channel) {
-        reply.reset(new QGrpcCallReply(this), [](QGrpcCallReply *reply) { reply->deleteLater(); });
+        QPointer<QGrpcCallReply> newReply(new QGrpcCallReply(this));
+        reply.reset(newReply.data(), [newReply](QGrpcCallReply *) {
+            //Client deletes its replies when it's destroyed
+            if (newReply) {
+                newReply->deleteLater();
+            }
+        });
 
         auto errorConnection = std::make_shared<QMetaObject::Connection>();
         auto finishedConnection = std::make_shared<QMetaObject::Connection>();
@@ -141,7 +148,13 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
                                       return stream(method, arg, handler);
                                   }, Qt::BlockingQueuedConnection, &grpcStream);
     } else if (dPtr->channel) {
-        grpcStream.reset(new QGrpcStream(method, arg, handler, this), [](QGrpcStream *stream) { stream->deleteLater(); });
+        QPointer<QGrpcStream> newStream(new QGrpcStream(method, arg, handler, this));
+        grpcStream.reset(newStream.data(), [newStream](QGrpcStream *) {
+            //Client deletes its streams when it's destroyed
+            if (newStream) {
+                newStream->deleteLater();
+            }
+        });
 
         auto it = std::find_if(std::begin(dPtr->activeStreams), std::end(dPtr->activeStreams), [grpcStream](const QGrpcStreamShared &activeStream) {
            return *activeStream == *grpcStream;
-- 
2.43.0


From e959e878b91263f36402cb6cfbab4433dad9b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 12/29] fix: GrpcStream re-initializes stream when its
 properties are changed

Cancelation of the previous stream disabled the element instead.
---
 src/grpc/quick/qquickgrpcstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index ca670b9..402cfad 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -50,6 +50,8 @@ QQuickGrpcStream::~QQuickGrpcStream()
 void QQuickGrpcStream::updateStream()
 {
     if (m_stream) {
+        //Cancelation of previous stream must not disable the new one
+        disconnect(m_stream.get(), nullptr, this, nullptr);
         m_stream->abort();
         m_stream.reset();
     }
-- 
2.43.0


From e6a5ee5adf1c47ecfd06ae597c3cb7210a53246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 13/29] fix: GrpcStream may outlive its client

---
 src/grpc/quick/qquickgrpcstream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index 402cfad..ad74f6f 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -174,5 +174,8 @@ bool QQuickGrpcStream::stream()
 
     connect(m_stream.get(), &QGrpcStream::finished, this, [this](){ m_stream.reset(); setEnabled(false); });
 
+    //Client was destroyed together with its streams
+    connect(m_stream.get(), &QObject::destroyed, this, [this](){ m_stream.reset(); setEnabled(false); });
+
     return true;
 }
-- 
2.43.0


From 09a54d763cd158c2daa112ecc6e01d3ed5076338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:47 +0000
Subject: [PATCH 14/29] fix: check size of the buffer before fields are read
 from it

---
 src/protobuf/qprotobufselfcheckiterator.h |  4 ++--
 src/protobuf/qprotobufserializer_p.h      | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/protobuf/qprotobufselfcheckiterator.h b/src/protobuf/qprotobufselfcheckiterator.h
index 6ee7602..a7b0507 100644
--- a/src/protobuf/qprotobufselfcheckiterator.h
+++ b/src/protobuf/qprotobufselfcheckiterator.h
@@ -75,10 +75,10 @@ public:
     }
 
     QProtobufSelfcheckIterator &operator +=(int count) {
-        m_sizeLeft -= count;
-        if (m_sizeLeft < 0) {
+        if (count < 0 || count > m_sizeLeft) {
             throw std::out_of_range("Container is less than required fields number. Deserialization failed");
         }
+        m_sizeLeft -= count;
         m_it += count;
         return *this;
     }
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 2f1e9df..a8994df 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -303,8 +303,9 @@ public:
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        variantValue = QVariant::fromValue(*(V *)((QByteArray::const_iterator&)it));
-        it += sizeof(V);
+        const char *data = it.data();
+        it += sizeof(V); //throws if there is not enough data
+        variantValue = QVariant::fromValue(*(V *)data);
     }
 
     template <typename V,
@@ -375,9 +376,9 @@ public:
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
         unsigned int length = deserializeVarintCommon<uint32>(it);
-        QByteArray result((QByteArray::const_iterator&)it, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
-        it += length;
-        return result;
+        const char *data = it.data();
+        it += length; //throws if there is not enough data
+        return QByteArray(data, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
     }
 
     static QByteArray serializeLengthDelimited(const QByteArray &data) {
-- 
2.43.0


From e88982812b565c669c1bf729434d537b45145a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:25 +0000
Subject: [PATCH 15/29] fix: request of a serializer from an unknown plugin
 throws instead of crashing

---
 src/protobuf/qprotobufserializerregistry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializerregistry.cpp b/src/protobuf/qprotobufserializerregistry.cpp
index ee1a06d..7ce5c45 100644
--- a/src/protobuf/qprotobufserializerregistry.cpp
+++ b/src/protobuf/qprotobufserializerregistry.cpp
@@ -191,7 +191,7 @@ std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSer
 
 std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSerializer(const QString &id, const QString &plugin)
 {
-    return dPtr->m_plugins[plugin]->serializers.at(id); //throws
+    return dPtr->m_plugins.at(plugin)->serializers.at(id); //throws
 }
 
 std::unique_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::acquireSerializer(const QString &/*id*/, const QString &/*plugin*/)
-- 
2.43.0


From 935729040bdccb64410d14b15d8199f0a5305f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:25 +0000
Subject: [PATCH 16/29] fix: plugin that failed to load is not registered and
 may be loaded later

---
 src/protobuf/qprotobufserializerregistry.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qprotobufserializerregistry.cpp b/src/protobuf/qprotobufserializerregistry.cpp
index 7ce5c45..d319e50 100644
--- a/src/protobuf/qprotobufserializerregistry.cpp
+++ b/src/protobuf/qprotobufserializerregistry.cpp
@@ -96,7 +96,7 @@ struct QProtobufSerializerRegistryPrivateRecord final
         }
     }
 
-    void loadPlugin()
+    bool loadPlugin()
     {
         QProtobufSerializationPluginInterface *loadedPlugin = qobject_cast<QProtobufSerializationPluginInterface*>(loadPluginImpl());
         if (!pluginData.isEmpty() && loadedPlugin) {
@@ -105,6 +105,7 @@ struct QProtobufSerializerRegistryPrivateRecord final
                 serializers[typeName] = std::shared_ptr<QAbstractProtobufSerializer>(loadedPlugin->serializer(typeName));
             }
         }
+        return loadedPlugin != nullptr;
     }
 
     QObject* loadPluginImpl()
@@ -154,7 +155,9 @@ public:
 
         const QString &pluginName = plugin->pluginLoadedName;
         if (m_plugins.find(pluginName) == m_plugins.end()) {
-            plugin->loadPlugin();
+            if (!plugin->loadPlugin()) {
+                return {};
+            }
             m_plugins[pluginName] = plugin;
         } else {
             plugin->loader = nullptr;
-- 
2.43.0


From 82be71731ab1516e6462bb4c9ad122c9d3e60fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:25 +0000
Subject: [PATCH 17/29] fix: first use of serializers and types registration
 are safe in several threads

---
 src/protobuf/qprotobufserializer.cpp | 4 ++++
 src/protobuf/qtprotobuf.cpp          | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index ab6a070..6615234 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -29,6 +29,8 @@
 #include "qprotobufmetaproperty.h"
 #include "qprotobufmetaobject.h"
 
+#include <QMutex>
+
 namespace QtProtobuf {
 
 template<>
@@ -180,6 +182,8 @@ void QProtobufSerializer::deserializeEnumList(QList<int64> &value, const QMetaEn
 
 QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) : q_ptr(q)
 {
+    static QMutex handlersLock;
+    QMutexLocker locker(&handlersLock);
     //if handlers is not empty intialization already done
     if (handlers.empty()) {
         wrapSerializer<float, serializeBasic, deserializeBasic<float>, Fixed32>();
diff --git a/src/protobuf/qtprotobuf.cpp b/src/protobuf/qtprotobuf.cpp
index ecdfa22..6b15d26 100644
--- a/src/protobuf/qtprotobuf.cpp
+++ b/src/protobuf/qtprotobuf.cpp
@@ -26,6 +26,7 @@
 #include "qtprotobuftypes.h"
 #include "qprotobufobject.h"
 
+#include <mutex>
 #include <type_traits>
 
 #define registerProtobufType(X) qRegisterMetaType<X>(# X);\
@@ -60,6 +61,8 @@ std::list<RegisterFunction>& registerFunctions() {
 }
 
 void qRegisterProtobufTypes() {
+    static std::recursive_mutex lock;
+    std::lock_guard<std::recursive_mutex> locker(lock);
     static bool registred = false;
     if (registred) {
         return;
-- 
2.43.0


From a412ad561719e2e61e82a1f7a3ca413a9ad0bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:14 +0000
Subject: [PATCH 18/29] fix: blocking call keeps the channel it's running on
 alive

---
 src/grpc/qabstractgrpcclient.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index ee4f3a2..acd6c9e 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -85,8 +85,10 @@ QGrpcStatus QAbstractGrpcClient::call(const QString &method, const QByteArray &a
         return callStatus;
     }
 
-    if (dPtr->channel) {
-        callStatus = dPtr->channel->call(method, dPtr->service, arg, ret);
+    //Channel might be replaced while the call is in progress
+    const auto channel = dPtr->channel;
+    if (channel) {
+        callStatus = channel->call(method, dPtr->service, arg, ret);
     } else {
         callStatus = QGrpcStatus{QGrpcStatus::Unknown, QLatin1String("No channel(s) attached.")};
     }
-- 
2.43.0


From 64617137a220a11dcd5e28268758bc3b9da06b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:48 +0000
Subject: [PATCH 19/29] fix: stream that is being completed has nothing to
 report anymore

---
 src/grpc/qgrpcchannel.cpp      | 3 +++
 src/grpc/qgrpchttp2channel.cpp | 2 +-
 src/grpc/qgrpcstream.h         | 6 ++++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 35f9aa7..2e14d2d 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -282,6 +282,9 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
 
     *connection = QObject::connect(sub.get(), &QGrpcChannelStream::finished, stream, [sub, stream, readConnection, abortConnection, service, connection, clientConnection](){
         qProtoDebug() << "Stream ended with server closing connection";
+        if (stream->isFinished()) {
+            return;
+        }
 
         QObject::disconnect(*connection);
         QObject::disconnect(*readConnection);
diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 0d5d6e5..42adb3b 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -322,7 +322,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         while (*finishConnection && QGrpcHttp2ChannelPrivate::takeMessage(*container, message)) {
             grpcStream->handler(message);
         }
-        if (!*finishConnection) {
+        if (!*finishConnection || grpcStream->isFinished()) {
             //Stream was aborted by one of its handlers
             return;
         }
diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index f995d7a..2b28b8e 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -65,6 +65,9 @@ public:
         return m_arg;
     }
 
+    //! \private
+    bool isFinished() const { return m_completed; }
+
     /*!
      * \brief Invokes handler method assigned to this stream.
      * \param data updated stream data buffer
@@ -72,6 +75,9 @@ public:
      *          to update data in stream and notify clients about stream updates.
      */
     void handler(const QByteArray& data) {
+        if (m_completed) {
+            return;
+        }
         setData(data);
         const auto handlers = m_handlers; //May be extended while handlers are called
         for (auto handler : handlers) {
-- 
2.43.0


From 55a9f54f4d141ef1dc3a5f00907703c9e14cec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 20/29] fix: destruction of GrpcStream doesn't notify about it
 and can't restart the stream

---
 src/grpc/quick/qquickgrpcstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index ad74f6f..82b2696 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -41,6 +41,8 @@ QQuickGrpcStream::QQuickGrpcStream(QObject *parent) : QObject(parent)
 QQuickGrpcStream::~QQuickGrpcStream()
 {
     if (m_stream) {
+        //Handlers must neither see the element under destruction nor restart its stream
+        disconnect(m_stream.get(), nullptr, this, nullptr);
         m_stream->abort();
     }
     delete m_returnValue;
-- 
2.43.0


From 4f2523d33aac33280543d8ba4833b9ebe0d06746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 21/29] fix: GrpcStream that is enabled again isn't disabled by
 its previous stream

---
 src/grpc/quick/qquickgrpcstream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index 82b2696..5b98336 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -174,7 +174,12 @@ bool QQuickGrpcStream::stream()
 
     connect(m_stream.get(), &QGrpcStream::error, this, &QQuickGrpcStream::error);//TODO: Probably it's good idea to disable stream here
 
-    connect(m_stream.get(), &QGrpcStream::finished, this, [this](){ m_stream.reset(); setEnabled(false); });
+    connect(m_stream.get(), &QGrpcStream::finished, this, [this](){
+        //Later destruction of finished stream must not disable the new one
+        disconnect(m_stream.get(), nullptr, this, nullptr);
+        m_stream.reset();
+        setEnabled(false);
+    });
 
     //Client was destroyed together with its streams
     connect(m_stream.get(), &QObject::destroyed, this, [this](){ m_stream.reset(); setEnabled(false); });
-- 
2.43.0


From c288c1e4611329187f781980fb41d20d35135bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:32 +0000
Subject: [PATCH 22/29] fix: QML call without a channel reports error to its
 callback

---
 src/generator/templates.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 0e42834..a8dc4aa 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -335,6 +335,10 @@ const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::
                                                            "        return;\n"
                                                            "    }\n\n"
                                                            "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
+                                                           "    if (reply == nullptr) {\n"
+                                                           "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(QGrpcStatus(QGrpcStatus::Unknown, \"Unable to call $classname$::$method_name$\"))});\n"
+                                                           "        return;\n"
+                                                           "    }\n"
                                                            "    reply->subscribe(jsEngine, [this, reply, callback, jsEngine]() {\n"
                                                            "        auto result = new $return_type$(reply->read<$return_type$>());\n"
                                                            "        qmlEngine(this)->setObjectOwnership(result, QQmlEngine::JavaScriptOwnership);\n"
@@ -360,6 +364,10 @@ const char *Templates::ClientMethodDefinitionQml2Template = "\nvoid $classname$:
                                                             "        return;\n"
                                                             "    }\n\n"
                                                             "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
+                                                            "    if (reply == nullptr) {\n"
+                                                            "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(QGrpcStatus(QGrpcStatus::Unknown, \"Unable to call $classname$::$method_name$\"))});\n"
+                                                            "        return;\n"
+                                                            "    }\n"
                                                             "    reply->subscribe(jsEngine, [this, reply, jsEngine, safeReturn]() {\n"
                                                             "        if (safeReturn.isNull()) {\n"
                                                             "            qProtoWarning() << \"Return value is destroyed. Ignore call result\";\n"
-- 
2.43.0


From 77a89e49caea115d1bcfa9c35ed8b1f26078e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:54 +0000
Subject: [PATCH 23/29] fix: file of an already loaded plugin can be replaced
 by another plugin

loadPlugin leaked the loader of a plugin with a known name, so description of
the file was kept forever and a different plugin put there later was taken
for the known one.
---
 src/protobuf/qprotobufserializerregistry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/protobuf/qprotobufserializerregistry.cpp b/src/protobuf/qprotobufserializerregistry.cpp
index d319e50..ae400cf 100644
--- a/src/protobuf/qprotobufserializerregistry.cpp
+++ b/src/protobuf/qprotobufserializerregistry.cpp
@@ -160,6 +160,7 @@ public:
             }
             m_plugins[pluginName] = plugin;
         } else {
+            delete plugin->loader; //doesn't unload the library, only releases the information about it
             plugin->loader = nullptr;
             qProtoInfo() << "Serializer plugin with name" << pluginName << "is already loaded";
         }
-- 
2.43.0


From bedac8533a41de7200aecc4bd842007b5480aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:40 +0000
Subject: [PATCH 24/29] fix: decode the percent-encoding of the server's status
 message

gRPC sends the text of a status percent-encoded in grpc-message. Over HTTP/2
the client handed out the encoded text, so anything but plain ASCII, and every
'%', differed from what the server had sent.
---
 src/grpc/qgrpchttp2channel.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 42adb3b..0c21af4 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -174,6 +174,12 @@ struct QGrpcHttp2ChannelPrivate {
         return networkReply->readAll().mid(GrpcMessageSizeHeaderSize);
     }
 
+    //! \private
+    //! The server's status message, that is percent-encoded UTF-8 on the wire
+    static QString statusMessage(QNetworkReply *networkReply) {
+        return QUrl::fromPercentEncoding(networkReply->rawHeader(GrpcStatusMessage));
+    }
+
     QGrpcHttp2ChannelPrivate(const QUrl &_url, std::unique_ptr<QAbstractGrpcCredentials> _credentials)
         : url(_url)
         , credentials(std::move(_credentials))
@@ -232,7 +238,7 @@ QGrpcStatus QGrpcHttp2Channel::call(const QString &method, const QString &servic
 
     networkReply->deleteLater();
     qProtoDebug() << __func__ << "RECV: " << ret.toHex() << "grpcStatus" << grpcStatus;
-    return {grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))};
+    return {grpcStatus, QGrpcHttp2ChannelPrivate::statusMessage(networkReply)};
 }
 
 void QGrpcHttp2Channel::call(const QString &method, const QString &service, const QByteArray &args, QGrpcCallReply *reply)
@@ -258,7 +264,7 @@ void QGrpcHttp2Channel::call(const QString &method, const QString &service, cons
             reply->finished();
         } else {
             reply->setData({});
-            reply->error({grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))});
+            reply->error({grpcStatus, QGrpcHttp2ChannelPrivate::statusMessage(networkReply)});
         }
         networkReply->deleteLater();
     });
@@ -348,7 +354,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
             QGrpcStatus::StatusCode grpcStatus;
             QGrpcHttp2ChannelPrivate::processReply(networkReply, grpcStatus);
             if (grpcStatus != QGrpcStatus::StatusCode::Ok) {
-                grpcStream->error(QGrpcStatus{grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))});
+                grpcStream->error(QGrpcStatus{grpcStatus, QGrpcHttp2ChannelPrivate::statusMessage(networkReply)});
             } else {
                 grpcStream->finished();
             }
-- 
2.43.0


From 4f7c69f00ff4e31f690657a96c03c7c08fb94b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:49 +0000
Subject: [PATCH 25/29] fix: do not offer the server compressions the client
 cannot undo

Requests over HTTP/2 announced deflate and gzip as accepted message
encodings, but nothing decompresses a message: the answer of a server that
makes use of the offer could not be decoded.
---
 src/grpc/qgrpchttp2channel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 0c21af4..c59e8b9 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -112,8 +112,8 @@ struct QGrpcHttp2ChannelPrivate {
         qProtoDebug() << "Service call url: " << callUrl;
         QNetworkRequest request(callUrl);
         request.setHeader(QNetworkRequest::ContentTypeHeader, "application/grpc");
-        request.setRawHeader(GrpcAcceptEncodingHeader, "identity,deflate,gzip");
-        request.setRawHeader(AcceptEncodingHeader, "identity,gzip");
+        request.setRawHeader(GrpcAcceptEncodingHeader, "identity");
+        request.setRawHeader(AcceptEncodingHeader, "identity");
         request.setRawHeader(TEHeader, "trailers");
         request.setSslConfiguration(sslConfig);
         QGrpcCredentialMap callCredentials = credentials->callCredentials();
-- 
2.43.0


From bc1f048162b4ab86e9a12bbdcbe68fe689550ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:57:50 +0000
Subject: [PATCH 26/29] fix: call with a callback is connected in the client's
 thread and releases its reply

The callback was connected after the call had been made. When the call was
made from another thread, its reply could be completed before that, and the
callback was never called. The connection also kept the reply it belonged to:
each call with a callback left a reply behind until the client's destruction.
---
 src/generator/templates.cpp      |  5 +----
 src/grpc/qabstractgrpcclient.cpp | 24 ++++++++++++++++++++++++
 src/grpc/qabstractgrpcclient.h   | 20 ++++++++++++++++++++
 3 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index a8dc4aa..e5d3490 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -313,10 +313,7 @@ const char *Templates::ClientMethodDefinitionAsyncTemplate = "\nQtProtobuf::QGrp
                                                              "}\n";
 const char *Templates::ClientMethodDefinitionAsync2Template = "\nvoid $classname$::$method_name$(const $param_type$ &$param_name$, const QObject *context, const std::function<void(QGrpcCallReplyShared)> &callback)\n"
                                                               "{\n"
-                                                              "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", $param_name$);\n"
-                                                              "    QObject::connect(reply.get(), &QtProtobuf::QGrpcCallReply::finished, context, [reply, callback]() {\n"
-                                                              "        callback(reply);\n"
-                                                              "    });\n"
+                                                              "    call(\"$method_name$\", $param_name$, context, callback);\n"
                                                               "}\n";
 
 const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::$method_name$($param_type$ *$param_name$, const QJSValue &callback, const QJSValue &errorCallback)\n"
diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index acd6c9e..323a51d 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -140,6 +140,30 @@ QGrpcCallReplyShared QAbstractGrpcClient::call(const QString &method, const QByt
     return reply;
 }
 
+void QAbstractGrpcClient::call(const QString &method, const QByteArray &arg, const QObject *context, const std::function<void(QGrpcCallReplyShared)> &callback)
+{
+    if (thread() != QThread::currentThread()) {
+        //Reply must not be completed before the callback is connected to it
+        QMetaObject::invokeMethod(this, [&]() { call(method, arg, context, callback); }, Qt::BlockingQueuedConnection);
+        return;
+    }
+
+    QGrpcCallReplyShared reply = call(method, arg);
+    if (!reply) {
+        return;
+    }
+
+    //Completed reply must not be kept by its own connection
+    auto finishedConnection = std::make_shared<QMetaObject::Connection>();
+    *finishedConnection = connect(reply.get(), &QGrpcCallReply::finished, context, [reply, callback, finishedConnection]() {
+        QObject::disconnect(*finishedConnection);
+        callback(reply);
+    });
+    connect(reply.get(), &QGrpcCallReply::error, reply.get(), [finishedConnection]() {
+        QObject::disconnect(*finishedConnection);
+    });
+}
+
 QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByteArray &arg, const QtProtobuf::StreamHandler &handler)
 {
     QGrpcStreamShared grpcStream;
diff --git a/src/grpc/qabstractgrpcclient.h b/src/grpc/qabstractgrpcclient.h
index 669ce02..2b76606 100644
--- a/src/grpc/qabstractgrpcclient.h
+++ b/src/grpc/qabstractgrpcclient.h
@@ -130,6 +130,23 @@ protected:
         return call(method, argData);
     }
 
+    /*!
+     * \private
+     * \brief Calls \p method of service client asynchronously
+     * \param[in] method Name of the method to be called
+     * \param[in] arg Protobuf message argument for \p method
+     * \param[in] context Receiver of the result, nothing is called after it's destroyed
+     * \param[in] callback Function that is called when call finished successfully
+     */
+    template<typename A>
+    void call(const QString &method, const A &arg, const QObject *context, const std::function<void(QGrpcCallReplyShared)> &callback) {
+        bool ok = false;
+        QByteArray argData = trySerialize(arg, ok);
+        if (ok) {
+            call(method, argData, context, callback);
+        }
+    }
+
     /*!
      * \private
      * \brief Streams to message notifications from server-stream with given message argument \a arg
@@ -196,6 +213,9 @@ private:
     //!\private
     QGrpcCallReplyShared call(const QString &method, const QByteArray &arg);
 
+    //!\private
+    void call(const QString &method, const QByteArray &arg, const QObject *context, const std::function<void(QGrpcCallReplyShared)> &callback);
+
     //!\private
     QGrpcStreamShared stream(const QString &method, const QByteArray &arg, const QtProtobuf::StreamHandler &handler = {});
 
-- 
2.43.0


From 31cb823a796a3067a2ea80cba15387cd120aa44a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:57:50 +0000
Subject: [PATCH 27/29] fix: calls made from QML release their replies

The reply was kept by its own connection until the client's destruction.
---
 src/generator/templates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index e5d3490..7447041 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -336,7 +336,7 @@ const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::
                                                            "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(QGrpcStatus(QGrpcStatus::Unknown, \"Unable to call $classname$::$method_name$\"))});\n"
                                                            "        return;\n"
                                                            "    }\n"
-                                                           "    reply->subscribe(jsEngine, [this, reply, callback, jsEngine]() {\n"
+                                                           "    reply->subscribe(jsEngine, [this, reply = reply.get(), callback, jsEngine]() {\n"
                                                            "        auto result = new $return_type$(reply->read<$return_type$>());\n"
                                                            "        qmlEngine(this)->setObjectOwnership(result, QQmlEngine::JavaScriptOwnership);\n"
                                                            "        QJSValue(callback).call(QJSValueList{jsEngine->toScriptValue(result)});\n"
@@ -365,7 +365,7 @@ const char *Templates::ClientMethodDefinitionQml2Template = "\nvoid $classname$:
                                                             "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(QGrpcStatus(QGrpcStatus::Unknown, \"Unable to call $classname$::$method_name$\"))});\n"
                                                             "        return;\n"
                                                             "    }\n"
-                                                            "    reply->subscribe(jsEngine, [this, reply, jsEngine, safeReturn]() {\n"
+                                                            "    reply->subscribe(jsEngine, [this, reply = reply.get(), jsEngine, safeReturn]() {\n"
                                                             "        if (safeReturn.isNull()) {\n"
                                                             "            qProtoWarning() << \"Return value is destroyed. Ignore call result\";\n"
                                                             "            return;\n"
-- 
2.43.0


From d5180cbbd6add0c9955e0d5344e64da8f5d67b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:10 +0000
Subject: [PATCH 28/29] fix: keep the elements of a packed list that is
 received in several pieces

---
 src/protobuf/qprotobufserializer_p.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index a8994df..aabdd62 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -358,7 +358,8 @@ public:
     static void deserializeList(QProtobufSelfcheckIterator &it, QVariant &previousValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        QList<V> out;
+        //Packed list might be received in several pieces
+        QList<V> out = previousValue.value<QList<V>>();
         unsigned int count = deserializeVarintCommon<uint32>(it);
         QProtobufSelfcheckIterator lastVarint = it + count;
         while (it != lastVarint) {
-- 
2.43.0


From a227008323ff5a6a12b3300283c668ec36ce03dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:12 +0000
Subject: [PATCH 29/29] fix: return object of a blocking call may be destroyed
 while the call is running

---
 src/grpc/qabstractgrpcclient.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.h b/src/grpc/qabstractgrpcclient.h
index 2b76606..a05cbca 100644
--- a/src/grpc/qabstractgrpcclient.h
+++ b/src/grpc/qabstractgrpcclient.h
@@ -106,7 +106,15 @@ protected:
         if (ok) {
             status = call(method, argData, retData);
             if (status == QGrpcStatus::StatusCode::Ok) {
-                status = tryDeserialize(*ret, retData);
+                if (ret.isNull()) {
+                    //Return data might be destroyed while the call waited for the reply
+                    static const QLatin1String nullPointerError("Pointer to return data is null while call reply received");
+                    status = {QGrpcStatus::InvalidArgument, nullPointerError};
+                    error(status);
+                    qProtoCritical() << nullPointerError;
+                } else {
+                    status = tryDeserialize(*ret, retData);
+                }
             }
         } else {
             status = QGrpcStatus({QGrpcStatus::Unknown, QLatin1String("Serializing failed. Serializer is not ready")});
-- 
2.43.0

