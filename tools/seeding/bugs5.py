import os, sys; V = os.environ.get("VERIF", "/verif"); sys.path.insert(0, V + "/tools/seeding")
exec(open(V + "/tools/seeding/bugs4.py").read().split('make("c12-early-check"')[0])

make("c04-early-uuid", "C04",
 "A registered server which asks to be registered again with the UUID of another server that is connected.",
 "When the refused connection is closed the registration of the other server is removed with it and its clients are disconnected.",
 [(TS, '''    // Make sure this client has not been registered as client or re-registration has been called...
    if (tunnelProxyClient->type() != TunnelProxyClient::TypeNone) {
        qCWarning(dcTunnelProxyServer()) << "Client tried to register as server but''', '''    tunnelProxyClient->setUuid(serverUuid);

    // Make sure this client has not been registered as client or re-registration has been called...
    if (tunnelProxyClient->type() != TunnelProxyClient::TypeNone) {
        qCWarning(dcTunnelProxyServer()) << "Client tried to register as server but'''),
  (TS, '''    tunnelProxyClient->setType(TunnelProxyClient::TypeServer);
    tunnelProxyClient->setUuid(serverUuid);
''', '''    tunnelProxyClient->setType(TunnelProxyClient::TypeServer);
''')],
 '''
with Proxy() as proxy:
    a, b, c = Peer.unix(proxy), Peer.unix(proxy), Peer.unix(proxy)
    ua, ub = new_uuid(), new_uuid()
    check(register_server(a, ua) == OK, "server a")
    check(register_server(b, ub) == OK, "server b")
    check(register_client(c, new_uuid(), ub) == OK, "client")
    address = connected_address(b)
    a.send(slip(0, a.request("TunnelProxy.RegisterServer", {"serverName": "x", "serverUuid": ub})))
    check(a.wait_closed(), "the second registration did not end the connection")
    c.quiet(0.5)
    check(not c.eof, "the client of the other server was disconnected")
    c.send(b"hello")
    check(b.frame() == (address, b"hello"), "the tunnel of the other server is broken")
    d = Peer.unix(proxy)
    check(register_client(d, new_uuid(), ub) == OK, "the other server is not known any more")
''')

make("c07-skip-second", "C07",
 "A server with at least two clients which goes away.",
 "Every second client stays connected to a server that does not exist any more.",
 [(TS, '''            foreach (TunnelProxyClientConnection *clientConnection, serverConnection->clientConnections()) {
                serverConnection->unregisterClientConnection(clientConnection);
                clientConnection->transportClient()->killConnection("Server disconnected");
            }
''', '''            for (int i = 0; i < serverConnection->clientConnections().count(); i++) {
                TunnelProxyClientConnection *clientConnection = serverConnection->clientConnections().at(i);
                serverConnection->unregisterClientConnection(clientConnection);
                clientConnection->transportClient()->killConnection("Server disconnected");
            }
''')],
 '''
with Proxy() as proxy:
    server = Peer.unix(proxy)
    su = new_uuid()
    check(register_server(server, su) == OK, "server")
    clients = [Peer.tcp(proxy) for i in range(6)]
    for c in clients:
        check(register_client(c, new_uuid(), su) == OK, "client")
    server.close()
    for i, c in enumerate(clients):
        check(c.wait_closed(5), "client %d is still connected" % i)
''')

make("c11-traffic-counts", "C11",
 "A server which is silent while its clients keep sending.",
 "A dead server is never found out as long as somebody sends data to it.",
 [(TC, '''    m_inactiveTimer->setInterval(60000);
''', '''    connect(this, &TransportClient::txDataCountChanged, m_inactiveTimer, QOverload<>::of(&QTimer::start));

    m_inactiveTimer->setInterval(60000);
''')],
 '''
with Proxy() as proxy:
    server, client = Peer.unix(proxy), Peer.unix(proxy)
    su = new_uuid()
    check(register_server(server, su) == OK, "server")
    check(register_client(client, new_uuid(), su) == OK, "client")
    start = time.time()
    while time.time() - start < 75 and not server.eof:
        try:
            client.send(b"x")
        except OSError:
            pass
        server.quiet(2)
    check(server.eof, "the silent server is still connected")
    check(time.time() - start > 55, "the server was closed too early")
''')

make("c14-ws-empty", "C14",
 "An empty text message of a WebSocket peer.",
 "The peer is disconnected.",
 [(L + "server/websocketserver.cpp", '''    qCDebug(dcWebSocketServerTraffic()) << "Text message from" << client->peerAddress().toString() << ":" << message;
''', '''    qCDebug(dcWebSocketServerTraffic()) << "Text message from" << client->peerAddress().toString() << ":" << message;
    if (message.isEmpty()) {
        onBinaryMessageReceived(QByteArray());
        return;
    }

''')],
 '''
with Proxy() as proxy:
    server, client = Peer.unix(proxy), WsPeer(proxy)
    su = new_uuid()
    check(register_server(server, su) == OK, "server")
    check(register_client(client, new_uuid(), su) == OK, "client")
    address = connected_address(server)
    client.send(b"")
    time.sleep(0.3)
    client.send(b"text")
    frame = server.frame(5)
    while frame is not None and frame == (address, b""):
        frame = server.frame(5)
    check(frame == (address, b"text"), "the server got %s" % (frame,))
''')

make("c19-abort-client", "C19",
 "A tunnel server which sends more than fits into the buffers of the system and disconnects the client then.",
 "The end of what was sent is lost.",
 [(L + "server/tcpsocketserver.cpp", '''    qCDebug(dcTcpSocketServer()) << "Killing client connection" << clientId.toString() << "Reason:" << killReason;
    client->flush();
    client->close();
''', '''    qCDebug(dcTcpSocketServer()) << "Killing client connection" << clientId.toString() << "Reason:" << killReason;
    client->flush();
    client->disconnectFromHost();
    if (client->state() != QAbstractSocket::UnconnectedState)
        client->abort();
''')],
 '''
with Proxy() as proxy:
    server, client = Peer.unix(proxy), Peer.tcp(proxy)
    su = new_uuid()
    check(register_server(server, su) == OK, "server")
    check(register_client(client, new_uuid(), su) == OK, "client")
    address = connected_address(server)
    data = bytes(range(97, 123)) * 600000
    server.send(slip(address, data))
    server.send(slip(0, server.request("TunnelProxy.DisconnectClient", {"socketAddress": address})))
    time.sleep(2)
    client.wait_closed(60)
    check(client.data == data, "the client got %d of %d bytes" % (len(client.data), len(data)))
''')

make("c09-lenient-control", "C09",
 "A request for an unknown method, or with invalid parameters, of a registered server.",
 "The connection stays open.",
 [(L + "server/jsonrpcserver.cpp", '''        sendErrorResponse(transportClient, commandId, "No such method");
        transportClient->killConnection("No such method.");
''', '''        sendErrorResponse(transportClient, commandId, "No such method");
        if (!transportClient->slipEnabled())
            transportClient->killConnection("No such method.");

''')],
 '''
with Proxy() as proxy:
    server = Peer.unix(proxy)
    check(register_server(server, new_uuid()) == OK, "server")
    reply = server.call_frame("TunnelProxy.Nothing")
    check(reply and reply["status"] == "error", "the reply is %s" % reply)
    check(server.wait_closed(5), "the connection is still open")
''')

make("c16-host-fallback", "C16",
 "A configuration with a host for the WebSocket server and none for the TCP server.",
 "The TCP server listens on the host of the WebSocket server and not on the documented default.",
 [(L + "proxyconfiguration.cpp", '''    setTcpServerTunnelProxyHost(QHostAddress(settings.value("host", "127.0.0.1").toString()));
''', '''    setTcpServerTunnelProxyHost(QHostAddress(settings.value("host", webSocketServerTunnelProxyHost().toString()).toString()));
''')],
 '''
proxy = Proxy(start=False)
try:
    text = open(proxy.config).read().replace("[WebSocketServerTunnelProxy]\\nhost=127.0.0.1", "[WebSocketServerTunnelProxy]\\nhost=127.0.0.2")
    text = text.replace("[TcpServerTunnelProxy]\\nhost=127.0.0.1\\n", "[TcpServerTunnelProxy]\\n")
    open(proxy.config, "w").write(text)
    run = subprocess.Popen([BUILD + "/server/nymea-remoteproxy", "-c", proxy.config], env=environment(), stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    connected = False
    for i in range(50):
        time.sleep(0.1)
        try:
            socket.create_connection(("127.0.0.1", proxy.tcp)).close()
            connected = True
            break
        except OSError:
            pass
    run.kill()
    run.wait()
    check(connected, "nobody listens on the default host")
finally:
    shutil.rmtree(proxy.dir, ignore_errors=True)
''')

make("c17-latin1", "C17",
 "Text with characters behind U+007F on a WebSocket connection of the client library.",
 "The server gets something else than the user wrote.",
 [(RC + "websocketconnection.cpp", '''    m_webSocket->sendTextMessage(QString::fromUtf8(data));
''', '''    m_webSocket->sendTextMessage(QString::fromLatin1(data));
''')],
 BUILDCPP + '''
directory = tempfile.mkdtemp(prefix="demo-")
try:
    program = build(directory)
    with Proxy() as proxy:
        server = Peer.unix(proxy)
        su = new_uuid()
        check(register_server(server, su) == OK, "server")
        run = subprocess.Popen([program, str(proxy.ws), su], env=environment())
        address = connected_address(server)
        frame = server.frame()
        run.kill()
        check(frame == (address, "gr\\u00fc\\u00df dich \\u20ac".encode()), "the server got %s" % (frame,))
finally:
    shutil.rmtree(directory, ignore_errors=True)
''')
cpp("c17-latin1", '''#include <QCoreApplication>
#include <QTimer>
#include <QUrl>
#include <tunnelproxy/tunnelproxyremoteconnection.h>
using namespace remoteproxyclient;
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    TunnelProxyRemoteConnection connection(QUuid::createUuid(), "client", TunnelProxyRemoteConnection::ConnectionTypeWebSocket);
    QObject::connect(&connection, &TunnelProxyRemoteConnection::remoteConnectedChanged, [&](bool connected) {
        if (connected)
            connection.sendData("gr\\xc3\\xbc\\xc3\\x9f dich \\xe2\\x82\\xac");
    });
    QTimer::singleShot(15000, [] { exit(1); });
    connection.connectServer(QUrl(QString("ws://127.0.0.1:%1").arg(argv[1])), QUuid(argv[2]));
    return app.exec();
}
''')

make("c18-notification-id", "C18",
 "A client which is announced again with the socket address of a client that left before (addresses wrap around).",
 "The new client is not announced to the user.",
 [(RC + "proxyjsonrpcclient.cpp", '''            quint16 socketAddress = static_cast<quint16>(notificationParams.value("socketAddress").toUInt());
            emit tunnelProxyClientConnected(clientName, clientUuid, clientPeerAddress, socketAddress);
''', '''            quint16 socketAddress = static_cast<quint16>(notificationParams.value("socketAddress").toUInt());
            // Ignore repeated notifications
            if (property("lastUuid").toUuid() == clientUuid)
                return;

            setProperty("lastUuid", clientUuid);
            emit tunnelProxyClientConnected(clientName, clientUuid, clientPeerAddress, socketAddress);
''')],
 BUILDCPP + '''
directory = tempfile.mkdtemp(prefix="demo-")
try:
    program = build(directory)
    with Proxy() as proxy:
        su, cu = new_uuid(), new_uuid()
        run = subprocess.Popen([program, str(proxy.tcp), su], env=environment())
        for round in range(3):
            for i in range(50):
                client = Peer.tcp(proxy)
                reply = register_client(client, cu, su)
                if reply == OK:
                    break
                time.sleep(0.2)
            check(reply == OK, "client registration: %s" % reply)
            client.send(b"data")
            client.wait(lambda p: len(p.data) >= 4, 5)
            check(client.data == b"data", "the client got %r in round %d" % (client.data, round))
            client.close()
            time.sleep(0.3)
        run.kill()
finally:
    shutil.rmtree(directory, ignore_errors=True)
''')
cpp("c18-notification-id", '''#include <QCoreApplication>
#include <QTimer>
#include <QUrl>
#include <tunnelproxy/tunnelproxysocketserver.h>
#include <tunnelproxy/tunnelproxysocket.h>
using namespace remoteproxyclient;
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    TunnelProxySocketServer server(QUuid(argv[2]), "server", TunnelProxySocketServer::ConnectionTypeTcpSocket);
    QObject::connect(&server, &TunnelProxySocketServer::clientConnected, [&](TunnelProxySocket *socket) {
        QObject::connect(socket, &TunnelProxySocket::dataReceived, [socket](const QByteArray &data) {
            socket->writeData(data);
        });
    });
    QTimer::singleShot(60000, [] { exit(0); });
    server.startServer(QUrl(QString("tcp://127.0.0.1:%1").arg(argv[1])));
    return app.exec();
}
''')

make("c20-long-name", "C20",
 "A client with a name of more than 30 characters.",
 "The monitor cuts the name.",
 [("monitor/noninteractivemonitor.cpp", '''                        .arg(clientMap.value("name").toString(), -30);
''', '''                        .arg(clientMap.value("name").toString().left(30), -30);
''')],
 '''
with Proxy() as proxy:
    server, client = Peer.unix(proxy), Peer.unix(proxy)
    su = new_uuid()
    check(register_server(server, su) == OK, "server")
    name = "a name which is a bit longer than the names of others"
    check(register_client(client, new_uuid(), su, name) == OK, "client")
    out = subprocess.run([BUILD + "/monitor/nymea-remoteproxy-monitor", "-s", proxy.monitor, "-n"], env=environment(),
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, timeout=20).stdout.decode(errors="replace")
    check(name in out, "the report is:\\n" + out)
''')

make("c24-log-rotate", "C24",
 "A log file which has grown to more than 1 MB.",
 "The older content of the log is lost.",
 [("server/main.cpp", '''        if (!s_logFile.open(QFile::WriteOnly | QFile::Append)) {
''', '''        QIODevice::OpenMode mode = QFile::WriteOnly | QFile::Append;
        if (QFileInfo(configuration->logFileName()).size() > 1024 * 1024)
            mode |= QFile::Truncate;

        if (!s_logFile.open(mode)) {
''')],
 '''
proxy = Proxy(start=False)
try:
    old = b"an old line of the log\\n" * 60000
    open(proxy.dir + "/proxy.log", "wb").write(old)
    run = subprocess.Popen([BUILD + "/server/nymea-remoteproxy", "-c", proxy.config, "-l", proxy.dir + "/proxy.log"], env=environment(),
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for i in range(100):
        time.sleep(0.1)
        try:
            socket.create_connection(("127.0.0.1", proxy.tcp)).close()
            break
        except OSError:
            pass
    run.send_signal(signal.SIGTERM)
    check(run.wait(20) == 0, "the status is %s" % run.returncode)
    data = open(proxy.dir + "/proxy.log", "rb").read()
    check(data.startswith(old), "the old content is gone")
    check(len(data) > len(old), "nothing was logged")
finally:
    shutil.rmtree(proxy.dir, ignore_errors=True)
''')

make("c25-once-insecure", "C25",
 "The tunnel client tool as server with -i, whose proxy with a certificate that cannot be verified is restarted.",
 "The tool does not come back.",
 [("tunnelclient/serverconnection.cpp", '''        if (m_insecure) {
            m_socketServer->ignoreSslErrors(errors);
''', '''        if (m_insecure) {
            m_insecure = false;
            m_socketServer->ignoreSslErrors(errors);
''')],
 '''
proxy = Proxy(ssl="true")
try:
    su = new_uuid()
    run = subprocess.Popen([BUILD + "/tunnelclient/nymea-remoteproxy-tunnelclient", "-u", "ssl://127.0.0.1:%d" % proxy.tcp, "-i", "-s", "--uuid", su],
                           env=environment(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    def registered():
        for i in range(150):
            if any(uuid.UUID(t["serverUuid"]) == uuid.UUID(su) for t in proxy.statistics()["tunnelConnections"]):
                return True
            time.sleep(0.1)
        return False
    check(registered(), "the tool did not register")
    proxy.process.terminate()
    proxy.process.wait()
    proxy.start()
    check(registered(), "the tool did not come back")
finally:
    run.kill()
    proxy.close()
''')

make("c26-monitor-close", "C26",
 "A monitor connection which is closed by the proxy because of a request that it does not understand.",
 "The socket object of the monitor is never deleted.",
 [(L + "server/monitorserver.cpp", '''    // Not a valid request. Close the connection
    qCWarning(dcMonitorServer()) << "Could not understand the request. Closing connection.";
''', '''    // Not a valid request. Close the connection
    qCWarning(dcMonitorServer()) << "Could not understand the request. Closing connection.";
    m_clients.removeAll(clientConnection);
    disconnect(clientConnection, nullptr, this, nullptr);
''')],
 BUILDENGINE + '''
code, out = run_engine()
check(code == 0, out)
''')
engine("c26-monitor-close", '''
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    ProxyConfiguration *c = configuration(argv);
    Engine::instance()->start(c);
    pause(100);
    auto count = [] { return Engine::instance()->findChildren<QLocalSocket *>().count(); };
    int before = count();
    for (int i = 0; i < 10; i++) {
        QLocalSocket socket;
        socket.connectToServer(c->monitorSocketFileName());
        if (!socket.waitForConnected(5000)) {
            printf("not connected\\n");
            return 1;
        }
        socket.write("{\\"method\\": \\"what\\"}");
        socket.flush();
        if (!wait([&] { return socket.state() == QLocalSocket::UnconnectedState; })) {
            printf("not closed\\n");
            return 1;
        }
    }
    pause(300);
    if (count() > before) {
        printf("%d sockets are left\\n", count() - before);
        return 1;
    }
    Engine::instance()->stop();
    return 0;
}
''')
