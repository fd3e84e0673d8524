From 2b9ff0b0f44ae9722c2a18dd057bdfd619d7efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:53 +0000
Subject: [PATCH 01/29] fix: unescape the frames of a server and drop invalid
 ones

The still escaped buffer was handed on instead of the decoded frame, which
damaged every payload with an END or ESC byte, and an invalid frame was kept
and glued to the next one.
---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 81e9e35..0b17c3f 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -83,9 +83,11 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
                     qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                 } else {
                     qCDebug(dcTunnelProxyServerTraffic()) << "Frame received";
-                    packets.append(m_dataBuffer);
-                    m_dataBuffer.clear();
+                    packets.append(frame);
                 }
+
+                // Start over with the next frame, also if this one was not valid
+                m_dataBuffer.clear();
             } else {
                 m_dataBuffer.append(data.at(i));
             }
-- 
2.43.0


From d7aeebd9f3d7611becc04a739b379c93c18de054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:46 +0000
Subject: [PATCH 02/29] fix: ignore frames which are too short to contain a
 socket address

---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index 22737aa..f3bae9c 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -408,6 +408,11 @@ void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByte
             // Handle packet fragmentation
             QList<QByteArray> frames = tunnelProxyClient->processData(data);
             foreach (const QByteArray &frameData, frames) {
+                if (frameData.size() < 2) {
+                    qCWarning(dcTunnelProxyServer()) << "Received a frame without a socket address from" << tunnelProxyClient << "Ignoring data...";
+                    continue;
+                }
+
                 SlipDataProcessor::Frame frame = SlipDataProcessor::parseFrame(frameData);
 
                 if (frame.socketAddress == 0x0000) {
-- 
2.43.0


From 246c01dab70e64f8c86a1ec812542505931b613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:46 +0000
Subject: [PATCH 03/29] fix: do not truncate the socket address of
 DisconnectClient

---
 libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
index beea4c9..2af9675 100644
--- a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
+++ b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
@@ -121,7 +121,11 @@ JsonReply *TunnelProxyHandler::RegisterServer(const QVariantMap &params, Transpo
 JsonReply *TunnelProxyHandler::DisconnectClient(const QVariantMap &params, TransportClient *transportClient)
 {
     qCDebug(dcJsonRpc()) << name() << "disconnect client requested" << params << transportClient;
-    quint16 socketAddress = static_cast<quint16>(params.value("socketAddress").toUInt());
+
+    // Note: 0x0000 is never assigned to a client, make sure a value out of range does not address an unrelated client
+    bool ok = false;
+    qulonglong requestedAddress = params.value("socketAddress").toULongLong(&ok);
+    quint16 socketAddress = ok && requestedAddress <= 0xFFFF ? static_cast<quint16>(requestedAddress) : 0x0000;
     TunnelProxyServer::TunnelProxyError error = Engine::instance()->tunnelProxyServer()->disconnectClient(transportClient->clientId(), socketAddress);
 
     QVariantMap response;
-- 
2.43.0


From 9a8d3a3097f112212da9a64a522bcff9a144fdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:46 +0000
Subject: [PATCH 04/29] fix: do not process a fragmented request which ends
 with a nested object

---
 .../tunnelproxy/tunnelproxyclient.cpp         | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 0b17c3f..156c77a 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -64,6 +64,35 @@ void TunnelProxyClient::setType(Type type)
     emit typeChanged(m_type);
 }
 
+// Returns true if the data ends within an object or array, more data has to arrive until the message is complete.
+// If the data ends within a string or contains mismatching brackets the message is considered to be broken, not incomplete.
+static bool isIncompleteMessage(const QByteArray &data)
+{
+    QByteArray openBrackets;
+    bool withinString = false;
+    for (int i = 0; i < data.length(); i++) {
+        char character = data.at(i);
+        if (withinString) {
+            if (character == '\\') {
+                i++;
+            } else if (character == '"') {
+                withinString = false;
+            }
+        } else if (character == '"') {
+            withinString = true;
+        } else if (character == '{' || character == '[') {
+            openBrackets.append(character);
+        } else if (character == '}' || character == ']') {
+            if (!openBrackets.endsWith(character == '}' ? '{' : '['))
+                return false;
+
+            openBrackets.chop(1);
+        }
+    }
+
+    return !withinString && !openBrackets.isEmpty();
+}
+
 QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
 {
     QList<QByteArray> packets;
@@ -101,7 +130,8 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
             m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
             splitIndex = m_dataBuffer.indexOf("}\n{");
         }
-        if (m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) {
+        // Note: the closing brace could also belong to a nested object of a fragmented message
+        if ((m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) && !isIncompleteMessage(m_dataBuffer)) {
             packets.append(m_dataBuffer);
             m_dataBuffer.clear();
         }
-- 
2.43.0


From c9b37b11dc23705d5fbe2b8bb84c71d2abb8ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:46 +0000
Subject: [PATCH 05/29] fix: search the whole range for a free socket address

---
 .../tunnelproxy/tunnelproxyserverconnection.cpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
index 0eb8690..2ae90c0 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
@@ -86,7 +86,7 @@ quint16 TunnelProxyServerConnection::getFreeAddress()
 {
     m_currentAddressCounter += 1;
     quint16 address = m_currentAddressCounter;
-    for (int i = 0; i < m_connectionLimit; i++) {
+    for (int i = 0; i < 0xFFFF; i++) {
         if (m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF) {
             address++;
         } else {
-- 
2.43.0


From b08c14517f6c38e7509958e47ac09e1606a076e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:18 +0000
Subject: [PATCH 06/29] fix: ignore the signals of the previous connection of a
 remote connection

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 43274af..ad4cbb8 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -169,7 +169,6 @@ void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
         connect(reply, &JsonReply::finished, this, &TunnelProxyRemoteConnection::onHelloFinished);
     } else {
         qCDebug(dcTunnelProxyRemoteConnection()) << "Disconnected from remote proxy server.";
-        setState(StateDisconnected);
         cleanUp();
     }
 }
@@ -301,6 +300,8 @@ void TunnelProxyRemoteConnection::cleanUp()
     }
 
     if (m_connection) {
+        // The socket might still change its state until it gets deleted
+        m_connection->disconnect(this);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
-- 
2.43.0


From 73353d4278afa68b5c2e336ea0c6312dcedd3c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 07/29] fix: keep the tunnel data which arrives together with
 the registration response

---
 .../proxyjsonrpcclient.cpp                      | 15 ++++++---------
 .../tunnelproxy/tunnelproxyremoteconnection.cpp | 17 +++++++++++++----
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 84ec7f8..f65861c 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -177,17 +177,14 @@ void JsonRpcClient::processData(const QByteArray &data)
 {
     qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << "Received data:" << data;
 
-    // Handle packet fragmentation
+    // Handle packet fragmentation, each packet is terminated by a new line
     m_dataBuffer.append(data);
-    int splitIndex = m_dataBuffer.indexOf("}\n{");
+    int splitIndex = m_dataBuffer.indexOf('\n');
     while (splitIndex > -1) {
-        processDataPacket(m_dataBuffer.left(splitIndex + 1));
-        m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
-        splitIndex = m_dataBuffer.indexOf("}\n{");
-    }
-    if (m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) {
-        processDataPacket(m_dataBuffer);
-        m_dataBuffer.clear();
+        QByteArray packet = m_dataBuffer.left(splitIndex);
+        m_dataBuffer.remove(0, splitIndex + 1);
+        processDataPacket(packet);
+        splitIndex = m_dataBuffer.indexOf('\n');
     }
 }
 
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index ad4cbb8..5e57d10 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -175,12 +175,21 @@ void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
 
 void TunnelProxyRemoteConnection::onConnectionDataAvailable(const QByteArray &data)
 {
-    if (m_state != StateRemoteConnected) {
-        m_jsonClient->processData(data);
-        return;
+    // The data following the response to the registration already belongs to the tunnel
+    int position = 0;
+    while (m_state != StateRemoteConnected) {
+        if (!m_jsonClient || position >= data.length())
+            return;
+
+        int packetEnd = data.indexOf('\n', position);
+        int length = packetEnd < 0 ? data.length() - position : packetEnd - position + 1;
+        m_jsonClient->processData(data.mid(position, length));
+        position += length;
     }
 
-    emit dataReady(data);
+    if (position < data.length()) {
+        emit dataReady(data.mid(position));
+    }
 }
 
 void TunnelProxyRemoteConnection::onConnectionSocketError(QAbstractSocket::SocketError error)
-- 
2.43.0


From 04747cf1021876ae060ee6f81ec5cb5e8759a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:57 +0000
Subject: [PATCH 08/29] fix: ignore the signals of the previous connection of a
 tunnel server

---
 .../tunnelproxy/tunnelproxysocketserver.cpp     | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 8cda6e7..75ddab4 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -179,7 +179,6 @@ void TunnelProxySocketServer::onConnectionChanged(bool connected)
         connect(reply, &JsonReply::finished, this, &TunnelProxySocketServer::onHelloFinished);
     } else {
         qCDebug(dcTunnelProxySocketServer()) << "Disconnected from remote proxy server.";
-        setState(StateDisconnected);
         setServerError(ErrorNotConnected);
         cleanUp();
     }
@@ -344,6 +343,11 @@ void TunnelProxySocketServer::onTunnelProxyClientDisconnected(quint16 socketAddr
 void TunnelProxySocketServer::requestSocketDisconnect(quint16 socketAddress)
 {
     TunnelProxySocket *socket = m_tunnelProxySockets.value(socketAddress);
+    if (!socket) {
+        qCWarning(dcTunnelProxySocketServer()) << "Could not request to disconnect the socket" << socketAddress << "because it is not connected any more.";
+        return;
+    }
+
     qCDebug(dcTunnelProxySocketServer()) << "Request to disconnect socket" << socket;
 
     JsonReply *reply = m_jsonClient->callDisconnectClient(socketAddress);
@@ -447,20 +451,23 @@ void TunnelProxySocketServer::setServerError(Error error)
 
 void TunnelProxySocketServer::cleanUp()
 {
-    foreach (quint16 socketAddress, m_tunnelProxySockets.keys()) {
-        onTunnelProxyClientDisconnected(socketAddress);
-    }
-
     if (m_jsonClient) {
+        m_jsonClient->disconnect(this);
         m_jsonClient->deleteLater();
         m_jsonClient = nullptr;
     }
 
     if (m_connection) {
+        // The socket might still change its state until it gets deleted
+        m_connection->disconnect(this);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
 
+    foreach (quint16 socketAddress, m_tunnelProxySockets.keys()) {
+        onTunnelProxyClientDisconnected(socketAddress);
+    }
+
     m_remoteProxyServer.clear();
     m_remoteProxyServerName.clear();
     m_remoteProxyServerVersion.clear();
-- 
2.43.0


From e5e0a5c70f7a0fa653419a0f4152ffaa0f8d28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:57 +0000
Subject: [PATCH 09/29] fix: send the keep alive ping also while data is
 received

---
 .../tunnelproxy/tunnelproxysocketserver.cpp                    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 75ddab4..d0134ba 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -188,9 +188,6 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
 {
     qCDebug(dcTunnelProxySocketServerTraffic()) << "Data received" << qUtf8Printable(data);
 
-    // We recived data, let's reset the keep alive timer
-    m_keepAliveTimer.start();
-
     if (m_state != StateRunning) {
         m_jsonClient->processData(data);
         m_dataBuffer.clear();
-- 
2.43.0


From f4feed5368ca99d7ff5b1119434c8a67f71556f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:14 +0000
Subject: [PATCH 10/29] fix: keep the frames which arrive together with the
 registration response

---
 .../tunnelproxy/tunnelproxysocketserver.cpp   | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index d0134ba..fa65b3c 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -188,14 +188,21 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
 {
     qCDebug(dcTunnelProxySocketServerTraffic()) << "Data received" << qUtf8Printable(data);
 
-    if (m_state != StateRunning) {
-        m_jsonClient->processData(data);
+    // The data following the response to the registration is already SLIP encoded
+    int position = 0;
+    while (m_state != StateRunning) {
+        if (!m_jsonClient || position >= data.length())
+            return;
+
+        int packetEnd = data.indexOf('\n', position);
+        int length = packetEnd < 0 ? data.length() - position : packetEnd - position + 1;
+        m_jsonClient->processData(data.mid(position, length));
         m_dataBuffer.clear();
-        return;
+        position += length;
     }
 
     // Parse SLIP frame
-    for (int i = 0; i < data.length(); i++) {
+    for (int i = position; i < data.length(); i++) {
         quint8 byte = static_cast<quint8>(data.at(i));
         if (byte == SlipDataProcessor::ProtocolByteEnd) {
             // If there is no data...continue since it might be a starting END byte
@@ -222,6 +229,10 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
             }
 
             m_dataBuffer.clear();
+
+            // The server might have been stopped while processing the frame
+            if (m_state != StateRunning)
+                return;
         } else {
             m_dataBuffer.append(data.at(i));
         }
-- 
2.43.0


From 2994eebe159dc76070d747577646270680627c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:01 +0000
Subject: [PATCH 11/29] fix: do not take a notification for the response to a
 pending request

---
 libnymea-remoteproxyclient/proxyjsonrpcclient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index f65861c..0f57fff 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -131,9 +131,9 @@ void JsonRpcClient::processDataPacket(const QByteArray &data)
 
     qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << "Data received" << qUtf8Printable(data);
 
-    // check if this is a reply to a request
+    // check if this is a reply to a request, notifications have an id too
     int commandId = dataMap.value("id").toInt();
-    JsonReply *reply = m_replies.take(commandId);
+    JsonReply *reply = dataMap.contains("notification") ? nullptr : m_replies.take(commandId);
     if (reply) {
         qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << QString("Got response for %1.%2: %3").arg(reply->nameSpace(), reply->method(), QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)));
 
-- 
2.43.0


From 9a5736bcbfbc9fc965e6d606fc26777cf89c4a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 12/29] fix: stay stopped if the engine is stopped right after
 the start

---
 libnymea-remoteproxy/engine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libnymea-remoteproxy/engine.cpp b/libnymea-remoteproxy/engine.cpp
index 8777293..8b2f6e9 100644
--- a/libnymea-remoteproxy/engine.cpp
+++ b/libnymea-remoteproxy/engine.cpp
@@ -250,6 +250,10 @@ void Engine::setRunning(bool running)
     if (m_running == running)
         return;
 
+    // The engine has been stopped before the event loop processed the start
+    if (running && !m_tunnelProxyServer)
+        return;
+
     if (m_tunnelProxyServer)
         m_tunnelProxyServer->setRunning(running);
 
-- 
2.43.0


From 792a87930a521cbd618071054d7ed0199fbea41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:42 +0000
Subject: [PATCH 13/29] fix: ignore the requests behind one which ends the
 connection

---
 libnymea-remoteproxy/server/jsonrpcserver.cpp   | 4 ++++
 libnymea-remoteproxy/server/transportclient.cpp | 6 ++++++
 libnymea-remoteproxy/server/transportclient.h   | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/libnymea-remoteproxy/server/jsonrpcserver.cpp b/libnymea-remoteproxy/server/jsonrpcserver.cpp
index fa46c44..793f558 100644
--- a/libnymea-remoteproxy/server/jsonrpcserver.cpp
+++ b/libnymea-remoteproxy/server/jsonrpcserver.cpp
@@ -205,6 +205,10 @@ uint JsonRpcServer::registeredClientCount() const
 
 void JsonRpcServer::processDataPacket(TransportClient *transportClient, const QByteArray &data)
 {
+    // Ignore the requests behind the one which ended the connection
+    if (!m_clients.contains(transportClient) || transportClient->connectionKilled())
+        return;
+
     QJsonParseError error;
     QJsonDocument jsonDoc = QJsonDocument::fromJson(data, &error);
     if(error.error != QJsonParseError::NoError) {
diff --git a/libnymea-remoteproxy/server/transportclient.cpp b/libnymea-remoteproxy/server/transportclient.cpp
index 3736f9d..c509e74 100644
--- a/libnymea-remoteproxy/server/transportclient.cpp
+++ b/libnymea-remoteproxy/server/transportclient.cpp
@@ -77,6 +77,11 @@ QString TransportClient::killConnectionReason() const
     return m_killConnectionReason;
 }
 
+bool TransportClient::connectionKilled() const
+{
+    return m_connectionKilled;
+}
+
 void TransportClient::enableSlipAfterResponse()
 {
     m_slipAfterResponseEnabled = true;
@@ -173,6 +178,7 @@ void TransportClient::killConnection(const QString &reason)
     if (!m_interface)
         return;
 
+    m_connectionKilled = true;
     m_interface->killClientConnection(m_clientId, reason);
 }
 
diff --git a/libnymea-remoteproxy/server/transportclient.h b/libnymea-remoteproxy/server/transportclient.h
index 4bd6ef7..4d871da 100644
--- a/libnymea-remoteproxy/server/transportclient.h
+++ b/libnymea-remoteproxy/server/transportclient.h
@@ -55,6 +55,9 @@ public:
     bool killConnectionRequested() const;
     QString killConnectionReason() const;
 
+    // The connection has been killed, further requests must not be processed any more
+    bool connectionKilled() const;
+
     // Schedule SLIP enable after response
     void enableSlipAfterResponse();
     bool slipAfterResponseEnabled() const;
@@ -105,6 +108,7 @@ protected:
 
     bool m_killConnectionRequested = false;
     QString m_killConnectionReason;
+    bool m_connectionKilled = false;
 
     bool m_slipAfterResponseEnabled = false;
     bool m_slipEnabled = false;
-- 
2.43.0


From 929d4a94fdacfacd44889d7eb7ae3f656632ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:49 +0000
Subject: [PATCH 14/29] fix: forget all pending replies of a client which
 disconnected

---
 libnymea-remoteproxy/server/jsonrpcserver.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/server/jsonrpcserver.cpp b/libnymea-remoteproxy/server/jsonrpcserver.cpp
index 793f558..1cfd6d0 100644
--- a/libnymea-remoteproxy/server/jsonrpcserver.cpp
+++ b/libnymea-remoteproxy/server/jsonrpcserver.cpp
@@ -381,9 +381,8 @@ void JsonRpcServer::unregisterClient(TransportClient *transportClient)
 
     m_clients.removeAll(transportClient);
 
-    if (m_asyncReplies.values().contains(transportClient)) {
+    foreach (JsonReply *reply, m_asyncReplies.keys(transportClient)) {
         qCWarning(dcJsonRpc()) << "Client was still waiting for a reply. Clean up reply";
-        JsonReply *reply = m_asyncReplies.key(transportClient);
         m_asyncReplies.remove(reply);
         // Note: the reply will be deleted in the finished slot
     }
-- 
2.43.0


From d4e8b5822c6d194a82940dcec08e2d8cbd89c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:03 +0000
Subject: [PATCH 15/29] fix: deliver what a websocket client sent before it
 closed its encrypted connection

---
 libnymea-remoteproxy/server/websocketserver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index c7eefa5..388cab8 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -152,8 +152,13 @@ void WebSocketServer::onClientError(QAbstractSocket::SocketError error)
     QWebSocket *client = static_cast<QWebSocket *>(sender());
     qCWarning(dcWebSocketServer()) << "Client error occurred:" << client << client->peerAddress().toString() << error << client->errorString() << "Closing the socket.";
 
-    // Note: on any error which can occurre, make sure the socket will be closed in any case
-    client->close();
+    // Note: on any error which can occurre, make sure the socket will be closed in any case. If the remote host
+    // closed the connection, data received before may not have been delivered yet (SSL): close behind them.
+    if (error == QAbstractSocket::RemoteHostClosedError) {
+        QMetaObject::invokeMethod(client, "close", Qt::QueuedConnection);
+    } else {
+        client->close();
+    }
 }
 
 void WebSocketServer::onAcceptError(QAbstractSocket::SocketError error)
-- 
2.43.0


From 65ee3bb480d73c05b1ff190a20ab02090bcea6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:04 +0000
Subject: [PATCH 16/29] fix: show the data counters of the client in the client
 rows of the monitor

---
 monitor/noninteractivemonitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index f149bc7..cf41d42 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -97,8 +97,8 @@ void NonInteractiveMonitor::onConnected()
                         .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toLongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                         .arg(clientMap.value("clientUuid").toString())
                         .arg(clientMap.value("address").toString(), - 15)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toInt()), - 9)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 9)
                         .arg(clientMap.value("name").toString(), -30);
 
                 qStdOut() << clientLinePrint << "\n";
-- 
2.43.0


From 8e94d1a4466d293a15496b821f3af275df6f6ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:01 +0000
Subject: [PATCH 17/29] fix: show data counters above 2 GB in the monitor

---
 monitor/noninteractivemonitor.cpp | 10 +++++-----
 monitor/terminalwindow.cpp        | 16 ++++++++--------
 monitor/utils.h                   |  2 +-
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index cf41d42..42b335e 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -53,7 +53,7 @@ void NonInteractiveMonitor::onConnected()
         qStdOut() << "Total client count:" << tunnelProxyMap.value("totalClientCount", 0).toInt() << "\n";
         qStdOut() << "Server connections:" << tunnelProxyMap.value("serverConnectionsCount", 0).toInt() << "\n";
         qStdOut() << "Client connections:" << tunnelProxyMap.value("clientConnectionsCount", 0).toInt() << "\n";
-        qStdOut() << "Data troughput:" << Utils::humanReadableTraffic(tunnelProxyMap.value("troughput", 0).toInt()) + " / s" << "\n";
+        qStdOut() << "Data troughput:" << Utils::humanReadableTraffic(tunnelProxyMap.value("troughput", 0).toDouble()) + " / s" << "\n";
         qStdOut() << "---------------------------------------------------------------------" << "\n";
         QVariantMap transportsMap = tunnelProxyMap.value("transports").toMap();
         foreach(const QString &transportInterface, transportsMap.keys()) {
@@ -78,8 +78,8 @@ void NonInteractiveMonitor::onConnected()
                     .arg(serverConnectionTime)
                     .arg(serverMap.value("serverUuid").toString())
                     .arg(serverMap.value("address").toString(), - 15)
-                    .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toInt()), - 9)
-                    .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toInt()), - 9)
+                    .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toDouble()), - 9)
+                    .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toDouble()), - 9)
                     .arg(serverMap.value("name").toString());
 
             qStdOut() << serverLinePrint << "\n";
@@ -97,8 +97,8 @@ void NonInteractiveMonitor::onConnected()
                         .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toLongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                         .arg(clientMap.value("clientUuid").toString())
                         .arg(clientMap.value("address").toString(), - 15)
-                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 9)
-                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toDouble()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toDouble()), - 9)
                         .arg(clientMap.value("name").toString(), -30);
 
                 qStdOut() << clientLinePrint << "\n";
diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index 182c988..d89ca37 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -166,7 +166,7 @@ void TerminalWindow::paintHeader()
                 .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("totalClientCount", 0).toInt())
                 .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("serverConnectionsCount", 0).toInt())
                 .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("clientConnectionsCount", 0).toInt())
-                .arg(Utils::humanReadableTraffic(m_dataMap.value("tunnelProxyStatistic").toMap().value("troughput", 0).toInt()) + " / s", - 13)
+                .arg(Utils::humanReadableTraffic(m_dataMap.value("tunnelProxyStatistic").toMap().value("troughput", 0).toDouble()) + " / s", - 13)
                 .arg(windowName);
         break;
     }
@@ -194,8 +194,8 @@ void TerminalWindow::paintContentClients()
         uint timeStamp = clientMap.value("timestamp").toUInt();
         QString clientConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
-        int rxDataCountBytes = clientMap.value("rxDataCount").toInt();
-        int txDataCountBytes = clientMap.value("txDataCount").toInt();
+        double rxDataCountBytes = clientMap.value("rxDataCount").toDouble();
+        double txDataCountBytes = clientMap.value("txDataCount").toDouble();
 
         QString clientPrint = QString("%1 | %2 | %3 | RX: %4 | TX: %5 | %6 | %7 | %8")
                 .arg(clientConnectionTime)
@@ -228,7 +228,7 @@ void TerminalWindow::paintContentTunnels()
         QString tunnelPrint = QString("%1 | %2 | %3 | %4 | %5 (%6) <---> %7 (%8)")
                 .arg(tunnelConnectionTime)
                 .arg(Utils::getDurationString(timeStamp))
-                .arg(Utils::humanReadableTraffic(clientOne.value("rxDataCount").toInt() + clientOne.value("txDataCount").toInt()), - 10)
+                .arg(Utils::humanReadableTraffic(clientOne.value("rxDataCount").toDouble() + clientOne.value("txDataCount").toDouble()), - 10)
                 .arg(clientOne.value("userName").toString())
                 .arg(clientOne.value("name").toString())
                 .arg(clientOne.value("address").toString())
@@ -250,8 +250,8 @@ void TerminalWindow::paintContentTunnelProxy()
         QVariantMap serverMap = serverVariant.toMap();
         uint timeStamp = serverMap.value("timestamp").toUInt();
         QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
-        int rxDataCountBytes = serverMap.value("rxDataCount").toInt();
-        int txDataCountBytes = serverMap.value("txDataCount").toInt();
+        double rxDataCountBytes = serverMap.value("rxDataCount").toDouble();
+        double txDataCountBytes = serverMap.value("txDataCount").toDouble();
         QString serverLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
                 .arg(serverConnectionTime)
                 .arg(serverMap.value("address").toString(), - 16)
@@ -286,8 +286,8 @@ void TerminalWindow::paintContentTunnelProxy()
             QString clientLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
                     .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toULongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                     .arg(clientMap.value("address").toString(), - 16)
-                    .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 10)
-                    .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 10)
+                    .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toDouble()), - 10)
+                    .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toDouble()), - 10)
                     .arg(clientMap.value("name").toString(), -30);
 
             mvwprintw(m_contentWindow, i, 6, "%s", clientLinePrint.trimmed().toLatin1().constData());
diff --git a/monitor/utils.h b/monitor/utils.h
index 5a121c4..0264767 100644
--- a/monitor/utils.h
+++ b/monitor/utils.h
@@ -49,7 +49,7 @@ public:
         return QString::asprintf("%02d:%02d:%02d", hours, minutes, seconds);
     }
 
-    inline static QString humanReadableTraffic(int bytes) {
+    inline static QString humanReadableTraffic(double bytes) {
         double dataCount = bytes;
         QStringList list;
         list << "KB" << "MB" << "GB" << "TB";
-- 
2.43.0


From 4f7563dc275ef306f4d5df655639852723015c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:01 +0000
Subject: [PATCH 18/29] fix: print names in the JSON mode of the monitor as
 they are

---
 monitor/monitorclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index c1ec45b..8f6472a 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -60,7 +60,7 @@ void MonitorClient::processBufferData()
     }
 
     if (m_jsonMode) {
-        qStdOut() << qUtf8Printable(jsonDoc.toJson(QJsonDocument::Indented)) << "\n";
+        qStdOut() << jsonDoc.toJson(QJsonDocument::Indented) << "\n";
         QTextStream out(stdout);
         out.flush();
         exit(EXIT_FAILURE);
-- 
2.43.0


From f6d426da0460e406b952b02b76504a0e4bd2b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:22 +0000
Subject: [PATCH 19/29] fix: show the connection time of servers in the
 interactive monitor

---
 monitor/terminalwindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index d89ca37..3c2069d 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -248,7 +248,7 @@ void TerminalWindow::paintContentTunnelProxy()
 
     foreach (const QVariant &serverVariant, tunnelProxyMap.value("tunnelConnections").toList()) {
         QVariantMap serverMap = serverVariant.toMap();
-        uint timeStamp = serverMap.value("timestamp").toUInt();
+        qint64 timeStamp = serverMap.value("timestamp").toLongLong();
         QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
         double rxDataCountBytes = serverMap.value("rxDataCount").toDouble();
         double txDataCountBytes = serverMap.value("txDataCount").toDouble();
-- 
2.43.0


From e87cf2ff39cfeabea4d60aa3edadf6eb7df968ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:26 +0000
Subject: [PATCH 20/29] fix: let the monitor read reports which arrive in any
 number of pieces

---
 monitor/monitorclient.cpp | 21 ++++++++-------------
 monitor/monitorclient.h   |  2 +-
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index 8f6472a..3e23fe4 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -50,10 +50,10 @@ void MonitorClient::setPrintAll(bool printAll)
     m_printAll = printAll;
 }
 
-void MonitorClient::processBufferData()
+void MonitorClient::processData(const QByteArray &data)
 {
     QJsonParseError error;
-    QJsonDocument jsonDoc = QJsonDocument::fromJson(m_dataBuffer, &error);
+    QJsonDocument jsonDoc = QJsonDocument::fromJson(data, &error);
     if(error.error != QJsonParseError::NoError) {
         qWarning() << "Failed to parse JSON data:" << error.errorString();
         return;
@@ -85,18 +85,13 @@ void MonitorClient::onDisconnected()
 void MonitorClient::onReadyRead()
 {
     // Note: the server sends the data compact with "\n" at the end
-    QByteArray data = m_socket->readAll();
+    m_dataBuffer.append(m_socket->readAll());
 
-    int index = data.indexOf("}\n");
-    if (index < 0) {
-        // Append the entire data and continue
-        m_dataBuffer.append(data);
-        return;
-    } else {
-        m_dataBuffer.append(data.left(index + 1));
-        processBufferData();
-        m_dataBuffer.clear();
-        m_dataBuffer.append(data.right(data.length() - index - 2));
+    int index = m_dataBuffer.indexOf("}\n");
+    while (index >= 0) {
+        processData(m_dataBuffer.left(index + 1));
+        m_dataBuffer.remove(0, index + 2);
+        index = m_dataBuffer.indexOf("}\n");
     }
 }
 
diff --git a/monitor/monitorclient.h b/monitor/monitorclient.h
index 113b3df..1293be7 100644
--- a/monitor/monitorclient.h
+++ b/monitor/monitorclient.h
@@ -48,7 +48,7 @@ private:
     bool m_printAll = false;
     QByteArray m_dataBuffer;
 
-    void processBufferData();
+    void processData(const QByteArray &data);
 
 signals:
     void connected();
-- 
2.43.0


From 5dd06b5a893535f775259935e0dee8ea9d3ac30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:05 +0000
Subject: [PATCH 21/29] fix: end the non-interactive monitor if there is no
 server to report

---
 monitor/monitorclient.cpp         | 1 +
 monitor/monitorclient.h           | 1 +
 monitor/noninteractivemonitor.cpp | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index 3e23fe4..00917ad 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -99,6 +99,7 @@ void MonitorClient::onErrorOccurred(QLocalSocket::LocalSocketError socketError)
 {
     Q_UNUSED(socketError)
     qWarning() << "Local socket error occurred" << m_socket->errorString();
+    emit errorOccurred();
 }
 
 void MonitorClient::connectMonitor()
diff --git a/monitor/monitorclient.h b/monitor/monitorclient.h
index 1293be7..164ddcf 100644
--- a/monitor/monitorclient.h
+++ b/monitor/monitorclient.h
@@ -53,6 +53,7 @@ private:
 signals:
     void connected();
     void disconnected();
+    void errorOccurred();
     void dataReady(const QVariantMap &data);
 
 private slots:
diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index 42b335e..0d37ec8 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -37,6 +37,10 @@ NonInteractiveMonitor::NonInteractiveMonitor(const QString &serverName, bool jso
 
     connect(m_monitorClient, &MonitorClient::connected, this, &NonInteractiveMonitor::onConnected);
 
+    // There will be no report without the server, do not wait for it
+    connect(m_monitorClient, &MonitorClient::disconnected, this, [](){ exit(EXIT_FAILURE); });
+    connect(m_monitorClient, &MonitorClient::errorOccurred, this, [](){ exit(EXIT_FAILURE); }, Qt::QueuedConnection);
+
     m_monitorClient->connectMonitor();
 }
 
-- 
2.43.0


From 47e3b94abaca13729e487840b9c0a61b611b284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:59 +0000
Subject: [PATCH 22/29] fix: keep the header of the interactive monitor in
 order if the server name contains a place marker

---
 monitor/terminalwindow.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index 3c2069d..81335c0 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -160,14 +160,14 @@ void TerminalWindow::paintHeader()
     case ViewTunnelProxy:
         windowName = "-- TunnelProxy --";
         headerString = QString(" Server: %1 (%2) | API: %3 | Total: %4 | Servers: %5 | Clients: %6 | %7 | %8")
-                .arg(m_dataMap.value("serverName", "-").toString())
-                .arg(m_dataMap.value("serverVersion", "-").toString())
-                .arg(m_dataMap.value("apiVersion", "-").toString())
-                .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("totalClientCount", 0).toInt())
-                .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("serverConnectionsCount", 0).toInt())
-                .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("clientConnectionsCount", 0).toInt())
-                .arg(Utils::humanReadableTraffic(m_dataMap.value("tunnelProxyStatistic").toMap().value("troughput", 0).toDouble()) + " / s", - 13)
-                .arg(windowName);
+                .arg(m_dataMap.value("serverName", "-").toString(),
+                     m_dataMap.value("serverVersion", "-").toString(),
+                     m_dataMap.value("apiVersion", "-").toString(),
+                     QString::number(m_dataMap.value("tunnelProxyStatistic").toMap().value("totalClientCount", 0).toInt()),
+                     QString::number(m_dataMap.value("tunnelProxyStatistic").toMap().value("serverConnectionsCount", 0).toInt()),
+                     QString::number(m_dataMap.value("tunnelProxyStatistic").toMap().value("clientConnectionsCount", 0).toInt()),
+                     QString(Utils::humanReadableTraffic(m_dataMap.value("tunnelProxyStatistic").toMap().value("troughput", 0).toDouble()) + " / s").leftJustified(13),
+                     windowName);
         break;
     }
 
-- 
2.43.0


From 2170eefe909a439c2ddfec48b134c37f1dfea941 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:17:46 +0000
Subject: [PATCH 23/29] fix: shut down in the event loop and not in the signal
 handler

---
 server/remoteproxyserverapplication.cpp | 72 +++++++++++++++++--------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/server/remoteproxyserverapplication.cpp b/server/remoteproxyserverapplication.cpp
index 2370cb5..836f87e 100644
--- a/server/remoteproxyserverapplication.cpp
+++ b/server/remoteproxyserverapplication.cpp
@@ -26,42 +26,30 @@
 #include "loggingcategories.h"
 #include "engine.h"
 
+#include <errno.h>
 #include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/socket.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <cxxabi.h>
 
 using namespace remoteproxy;
 
+// Written by the signal handler and read in the event loop
+static int s_signalSockets[2] = {-1, -1};
+
 static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vector<int>& ignoreSignals = std::vector<int>())
 {
+    // Note: a signal handler interrupts whatever is running, it must only use functions which are async-signal-safe
     auto handler = [](int sig) ->void {
-        switch (sig) {
-        case SIGQUIT:
-            qCDebug(dcApplication()) << "Cought SIGQUIT quit signal...";
-            break;
-        case SIGINT:
-            qCDebug(dcApplication()) << "Cought SIGINT quit signal...";
-            break;
-        case SIGTERM:
-            qCDebug(dcApplication()) << "Cought SIGTERM quit signal...";
-            break;
-        case SIGHUP:
-            qCDebug(dcApplication()) << "Cought SIGHUP quit signal...";
-            break;
-        default:
-            break;
-        }
-
-        qCDebug(dcApplication()) << "==========================================================";
-        qCDebug(dcApplication) << "Shutting down nymea-remoteproxy";
-        qCDebug(dcApplication()) << "==========================================================";
-
-        Engine::instance()->destroy();
-        RemoteProxyServerApplication::quit();
+        int savedErrno = errno;
+        char signalNumber = static_cast<char>(sig);
+        ssize_t result = ::write(s_signalSockets[0], &signalNumber, sizeof(signalNumber));
+        Q_UNUSED(result)
+        errno = savedErrno;
     };
 
     // all these signals will be ignored.
@@ -72,8 +60,46 @@ static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vec
         signal(sig, handler);
 }
 
+static void shutDown(int sig)
+{
+    switch (sig) {
+    case SIGQUIT:
+        qCDebug(dcApplication()) << "Cought SIGQUIT quit signal...";
+        break;
+    case SIGINT:
+        qCDebug(dcApplication()) << "Cought SIGINT quit signal...";
+        break;
+    case SIGTERM:
+        qCDebug(dcApplication()) << "Cought SIGTERM quit signal...";
+        break;
+    case SIGHUP:
+        qCDebug(dcApplication()) << "Cought SIGHUP quit signal...";
+        break;
+    default:
+        break;
+    }
+
+    qCDebug(dcApplication()) << "==========================================================";
+    qCDebug(dcApplication) << "Shutting down nymea-remoteproxy";
+    qCDebug(dcApplication()) << "==========================================================";
+
+    Engine::instance()->destroy();
+    RemoteProxyServerApplication::quit();
+}
+
 RemoteProxyServerApplication::RemoteProxyServerApplication(int &argc, char **argv) :
     QCoreApplication(argc, argv)
 {
+    if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0, s_signalSockets) != 0)
+        qFatal("Could not create the sockets for the signal handler.");
+
+    QSocketNotifier *notifier = new QSocketNotifier(s_signalSockets[1], QSocketNotifier::Read, this);
+    connect(notifier, &QSocketNotifier::activated, this, [](){
+        char signalNumber = 0;
+        if (::read(s_signalSockets[1], &signalNumber, sizeof(signalNumber)) == sizeof(signalNumber)) {
+            shutDown(signalNumber);
+        }
+    });
+
     catchUnixSignals({SIGQUIT, SIGINT, SIGTERM, SIGHUP});
 }
-- 
2.43.0


From b15af28737243f53ae28e933c835dbaea7367277 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:21:36 +0000
Subject: [PATCH 24/29] fix: send random data only if the tunnel client is told
 to

---
 tunnelclient/clientconnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tunnelclient/clientconnection.cpp b/tunnelclient/clientconnection.cpp
index 8d0bb16..71f0a47 100644
--- a/tunnelclient/clientconnection.cpp
+++ b/tunnelclient/clientconnection.cpp
@@ -55,7 +55,7 @@ ClientConnection::ClientConnection(const QUrl &serverUrl, const QString &name, c
 
     connect(m_remoteConnection, &TunnelProxyRemoteConnection::remoteConnectedChanged, this, [this](bool remoteConnected){
         qDebug() << "Remote connection" << (remoteConnected ? "established successfully" : "disconnected");
-        if (remoteConnected) {
+        if (remoteConnected && m_sendRandomData) {
             m_timer.start(1000);
         }
     });
-- 
2.43.0


From 15bb0a0941faaf90e4d8a64eca62da9001814ba2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:21:36 +0000
Subject: [PATCH 25/29] fix: connect to TCP URLs with a host name

---
 libnymea-remoteproxyclient/tcpsocketconnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tcpsocketconnection.cpp b/libnymea-remoteproxyclient/tcpsocketconnection.cpp
index 4107a5e..4e34edf 100644
--- a/libnymea-remoteproxyclient/tcpsocketconnection.cpp
+++ b/libnymea-remoteproxyclient/tcpsocketconnection.cpp
@@ -123,7 +123,7 @@ void TcpSocketConnection::connectServer(const QUrl &serverUrl)
 
     if (m_serverUrl.scheme() == "tcp") {
         qCDebug(dcRemoteProxyClientTcpSocket()) << "Connecting to" << m_serverUrl.toString();
-        m_tcpSocket->connectToHost(QHostAddress(m_serverUrl.host()), static_cast<quint16>(m_serverUrl.port()));
+        m_tcpSocket->connectToHost(m_serverUrl.host(), static_cast<quint16>(m_serverUrl.port()));
     } else {
         m_ssl = true;
         qCDebug(dcRemoteProxyClientTcpSocket()) << "Connecting encrypted to" << m_serverUrl.host() + ":" + QString::number(m_serverUrl.port());
-- 
2.43.0


From 9cbd7db6ae63b643e4abefbbf1eedd079403b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:58 +0000
Subject: [PATCH 26/29] fix: abort idle connections which do not receive their
 pending data

---
 libnymea-remoteproxy/server/tcpsocketserver.cpp        | 10 ++++++++++
 libnymea-remoteproxy/server/tcpsocketserver.h          |  1 +
 libnymea-remoteproxy/server/transportinterface.h       |  3 +++
 libnymea-remoteproxy/server/unixsocketserver.cpp       | 10 ++++++++++
 libnymea-remoteproxy/server/unixsocketserver.h         |  1 +
 libnymea-remoteproxy/server/websocketserver.cpp        | 10 ++++++++++
 libnymea-remoteproxy/server/websocketserver.h          |  1 +
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp |  8 ++++++++
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h   |  1 +
 9 files changed, 45 insertions(+)

diff --git a/libnymea-remoteproxy/server/tcpsocketserver.cpp b/libnymea-remoteproxy/server/tcpsocketserver.cpp
index b130586..feafb3d 100644
--- a/libnymea-remoteproxy/server/tcpsocketserver.cpp
+++ b/libnymea-remoteproxy/server/tcpsocketserver.cpp
@@ -70,6 +70,16 @@ void TcpSocketServer::killClientConnection(const QUuid &clientId, const QString
     client->close();
 }
 
+void TcpSocketServer::abortClientConnection(const QUuid &clientId)
+{
+    QSslSocket *client = m_clientList.value(clientId);
+    if (!client)
+        return;
+
+    qCWarning(dcTcpSocketServer()) << "Abort client connection" << clientId.toString();
+    client->abort();
+}
+
 uint TcpSocketServer::connectionsCount() const
 {
     return m_clientList.count();
diff --git a/libnymea-remoteproxy/server/tcpsocketserver.h b/libnymea-remoteproxy/server/tcpsocketserver.h
index 8298f5b..48dc2d5 100644
--- a/libnymea-remoteproxy/server/tcpsocketserver.h
+++ b/libnymea-remoteproxy/server/tcpsocketserver.h
@@ -85,6 +85,7 @@ public:
 
     void sendData(const QUuid &clientId, const QByteArray &data) override;
     void killClientConnection(const QUuid &clientId, const QString &killReason) override;
+    void abortClientConnection(const QUuid &clientId) override;
 
     uint connectionsCount() const override;
 
diff --git a/libnymea-remoteproxy/server/transportinterface.h b/libnymea-remoteproxy/server/transportinterface.h
index d024d99..7441124 100644
--- a/libnymea-remoteproxy/server/transportinterface.h
+++ b/libnymea-remoteproxy/server/transportinterface.h
@@ -46,6 +46,9 @@ public:
     virtual void sendData(const QUuid &clientId, const QByteArray &data) = 0;
     virtual void killClientConnection(const QUuid &clientId, const QString &killReason) = 0;
 
+    // Close the connection without waiting for pending data to be written
+    virtual void abortClientConnection(const QUuid &clientId) = 0;
+
     virtual uint connectionsCount() const = 0;
 
     QUrl serverUrl() const;
diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index 7eb959a..7af32e4 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -73,6 +73,16 @@ void UnixSocketServer::killClientConnection(const QUuid &clientId, const QString
     }
 }
 
+void UnixSocketServer::abortClientConnection(const QUuid &clientId)
+{
+    QLocalSocket *client = m_clientList.value(clientId);
+    if (!client)
+        return;
+
+    qCWarning(dcUnixSocketServer()) << "Abort client connection" << clientId.toString();
+    client->abort();
+}
+
 uint UnixSocketServer::connectionsCount() const
 {
     return m_clientList.count();
diff --git a/libnymea-remoteproxy/server/unixsocketserver.h b/libnymea-remoteproxy/server/unixsocketserver.h
index 6f35f6d..201d91a 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.h
+++ b/libnymea-remoteproxy/server/unixsocketserver.h
@@ -46,6 +46,7 @@ public:
 
     void sendData(const QUuid &clientId, const QByteArray &data) override;
     void killClientConnection(const QUuid &clientId, const QString &killReason) override;
+    void abortClientConnection(const QUuid &clientId) override;
 
     uint connectionsCount() const override;
 
diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index 388cab8..f849559 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -81,6 +81,16 @@ void WebSocketServer::killClientConnection(const QUuid &clientId, const QString
     client->close(QWebSocketProtocol::CloseCodeBadOperation, killReason);
 }
 
+void WebSocketServer::abortClientConnection(const QUuid &clientId)
+{
+    QWebSocket *client = m_clientList.value(clientId);
+    if (!client)
+        return;
+
+    qCWarning(dcWebSocketServer()) << "Abort client connection" << clientId.toString();
+    client->abort();
+}
+
 uint WebSocketServer::connectionsCount() const
 {
     return m_clientList.count();
diff --git a/libnymea-remoteproxy/server/websocketserver.h b/libnymea-remoteproxy/server/websocketserver.h
index 96dfd70..2f8f804 100644
--- a/libnymea-remoteproxy/server/websocketserver.h
+++ b/libnymea-remoteproxy/server/websocketserver.h
@@ -52,6 +52,7 @@ public:
 
     void sendData(const QUuid &clientId, const QByteArray &data) override;
     void killClientConnection(const QUuid &clientId, const QString &killReason) override;
+    void abortClientConnection(const QUuid &clientId) override;
 
     uint connectionsCount() const override;
 
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 156c77a..f999cde 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -44,6 +44,14 @@ TunnelProxyClient::TunnelProxyClient(TransportInterface *interface, const QUuid
     m_inactiveTimer->setSingleShot(true);
 
     connect(m_inactiveTimer, &QTimer::timeout, this, [this](){
+        // The closed socket waits for a client which does not receive the pending data any more
+        if (m_timeoutOccurred) {
+            m_interface->abortClientConnection(m_clientId);
+            return;
+        }
+
+        m_timeoutOccurred = true;
+        m_inactiveTimer->start();
         m_interface->killClientConnection(m_clientId, "Tunnelproxy client timeout occurred. The socket was inactive.");
     });
 
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
index c1decfc..86399fc 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
@@ -63,6 +63,7 @@ signals:
 
 private:
     QTimer *m_inactiveTimer = nullptr;
+    bool m_timeoutOccurred = false;
     Type m_type = TypeNone;
 
 };
-- 
2.43.0


From c1402d5519c3bf157a3be5c7b8c870b88210d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:50 +0000
Subject: [PATCH 27/29] fix: delete the sockets of disconnected Unix socket
 clients

---
 libnymea-remoteproxy/server/unixsocketserver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index 7af32e4..583c402 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -150,6 +150,8 @@ void UnixSocketServer::onClientConnected()
         if (m_clientList.take(clientId)) {
             emit clientDisconnected(clientId);
         }
+
+        client->deleteLater();
     });
     connect(client, &QLocalSocket::readyRead, this, [this, client, clientId](){
         QByteArray data = client->readAll();
-- 
2.43.0


From 354109b5246cfe75a450bf4240e90cbea5fcbe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:05 +0000
Subject: [PATCH 28/29] fix: give each request of the client library an id of
 its own

---
 libnymea-remoteproxyclient/jsonreply.cpp          |  1 -
 libnymea-remoteproxyclient/proxyjsonrpcclient.cpp | 10 +++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/libnymea-remoteproxyclient/jsonreply.cpp b/libnymea-remoteproxyclient/jsonreply.cpp
index 34dbddd..956b8a3 100644
--- a/libnymea-remoteproxyclient/jsonreply.cpp
+++ b/libnymea-remoteproxyclient/jsonreply.cpp
@@ -67,7 +67,6 @@ QVariantMap JsonReply::requestMap()
     if (!m_params.isEmpty())
         request.insert("params", params());
 
-    m_commandId++;
     return request;
 }
 
diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 0f57fff..5e174a9 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -48,7 +48,7 @@ JsonReply *JsonRpcClient::callHello()
     JsonReply *reply = new JsonReply(m_commandId, "RemoteProxy", "Hello", QVariantMap(), this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -61,7 +61,7 @@ JsonReply *JsonRpcClient::callRegisterServer(const QUuid &serverUuid, const QStr
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterServer", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -75,7 +75,7 @@ JsonReply *JsonRpcClient::callRegisterClient(const QUuid &clientUuid, const QStr
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -87,7 +87,7 @@ JsonReply *JsonRpcClient::callDisconnectClient(quint16 socketAddress)
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "DisconnectClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -99,7 +99,7 @@ JsonReply *JsonRpcClient::callPing(uint timestamp)
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "Ping", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
-- 
2.43.0


From 9ed2ae033d4585f7f0daa5388f4afc248470bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:05 +0000
Subject: [PATCH 29/29] fix: end the JSON mode of the monitor with success
 behind the report

---
 monitor/monitorclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index 00917ad..a45b4ac 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -63,7 +63,7 @@ void MonitorClient::processData(const QByteArray &data)
         qStdOut() << jsonDoc.toJson(QJsonDocument::Indented) << "\n";
         QTextStream out(stdout);
         out.flush();
-        exit(EXIT_FAILURE);
+        exit(EXIT_SUCCESS);
     }
 
     QVariantMap dataMap = jsonDoc.toVariant().toMap();
-- 
2.43.0

