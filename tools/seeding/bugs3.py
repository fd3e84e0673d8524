import os, sys; V = os.environ.get("VERIF", "/verif"); sys.path.insert(0, V + "/tools/seeding")
from mk import make
exec(open(V + "/tools/seeding/bugs2.py").read().split('make("c12-limit-skipped"')[0])

make("c07-foreign-transport", "C07",
 "A server which disconnects while it has clients on another transport than its own.",
 "Only the clients on the transport of the server are disconnected with it, the others stay connected without a server.",
 [(TS, '''                serverConnection->unregisterClientConnection(clientConnection);
                clientConnection->transportClient()->killConnection("Server disconnected");
''', '''                serverConnection->unregisterClientConnection(clientConnection);
                if (interface->connectionsCount() > 0 || clientConnection->transportClient()->interface() == interface)
                    interface->killClientConnection(clientConnection->transportClient()->clientId(), "Server disconnected");
''')],
 '''
with Proxy() as proxy:
    su = new_uuid()
    server, a, b = Peer.unix(proxy), Peer.unix(proxy), Peer.tcp(proxy)
    check(register_server(server, su) == OK, "server registration")
    check(register_client(a, new_uuid(), su) == OK and register_client(b, new_uuid(), su) == OK, "client registration")
    server.close()
    a.wait_closed(3)
    b.wait_closed(3)
    check(a.eof and b.eof, "a client stayed connected without its server: unix %s, tcp %s" % (not a.eof, not b.eof))
''')

make("c18-address-reuse", "C18",
 "A ClientDisconnected which is followed by a ClientConnected with the same socket address in the same piece of data.",
 "The new client is forgotten as soon as the old one is deleted, its data is ignored.",
 [(RC + "tunnelproxy/tunnelproxysocketserver.cpp", '''    tunnelProxySocket->setDisconnected();
    emit clientDisconnected(tunnelProxySocket);
''', '''    connect(tunnelProxySocket, &QObject::destroyed, this, [this, socketAddress](){
        // Make sure there is no dangling pointer left, the application might delete the socket
        m_tunnelProxySockets.remove(socketAddress);
    });
    tunnelProxySocket->setDisconnected();
    emit clientDisconnected(tunnelProxySocket);
''')],
 BUILDCPP + '''
def notification(name, **params):
    return slip(0, json.dumps({"id": 0, "notification": "TunnelProxy." + name, "params": params}).encode() + b"\\n")


directory = tempfile.mkdtemp(prefix="demo-")
try:
    program = build(directory)
    listener = socket.create_server(("127.0.0.1", 0))
    run = subprocess.Popen([program, str(listener.getsockname()[1])], env=environment(), stdout=subprocess.PIPE)
    peer = accept(listener)
    answer(peer, dict(HELLO))
    answer(peer, {"tunnelProxyError": OK})
    time.sleep(0.5)
    peer.send(notification("ClientConnected", clientName="a", clientUuid=new_uuid(), clientPeerAddress="127.0.0.1", socketAddress=7))
    time.sleep(0.5)
    peer.send(notification("ClientDisconnected", socketAddress=7) + notification("ClientConnected", clientName="b", clientUuid=new_uuid(), clientPeerAddress="127.0.0.1", socketAddress=7))
    time.sleep(0.5)
    peer.send(slip(7, b"hello"))
    out = run.communicate(timeout=30)[0].decode().split()
    check(out == ["a", "b", "hello"], "the server reported %s" % out)
finally:
    shutil.rmtree(directory, ignore_errors=True)
''')
cpp("c18-address-reuse", '''#include <QCoreApplication>
#include <QTimer>
#include <QUrl>
#include <cstdio>
#include <tunnelproxy/tunnelproxysocketserver.h>
#include <tunnelproxy/tunnelproxysocket.h>
using namespace remoteproxyclient;
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    TunnelProxySocketServer server(QUuid::createUuid(), "server", TunnelProxySocketServer::ConnectionTypeTcpSocket);
    QObject::connect(&server, &TunnelProxySocketServer::clientConnected, [&](TunnelProxySocket *socket) {
        printf("%s\\n", qPrintable(socket->clientName()));
        fflush(stdout);
        QObject::connect(socket, &TunnelProxySocket::dataReceived, [](const QByteArray &data) {
            printf("%s\\n", data.constData());
            fflush(stdout);
        });
    });
    QTimer::singleShot(4000, [] { exit(0); });
    server.startServer(QUrl(QString("tcp://127.0.0.1:%1").arg(argv[1])));
    return app.exec();
}
''')

make("c17-first-server", "C17",
 "A connection object which connects to one server and later to another one of the same proxy.",
 "The second connect registers at the first server again.",
 [(RC + "tunnelproxy/tunnelproxyremoteconnection.cpp", '''    m_serverUrl = url;
    m_serverUuid = serverUuid;
''', '''    // The server belongs to the proxy, keep it if only the connection gets renewed
    if (m_serverUrl != url || m_serverUuid.isNull())
        m_serverUuid = serverUuid;

    m_serverUrl = url;
''')],
 BUILDCPP + '''
directory = tempfile.mkdtemp(prefix="demo-")
try:
    program = build(directory)
    listener = socket.create_server(("127.0.0.1", 0))
    first, second = new_uuid(), new_uuid()
    run = subprocess.Popen([program, str(listener.getsockname()[1]), first, second], env=environment())
    for expected in (first, second):
        peer = accept(listener)
        answer(peer, dict(HELLO))
        request = answer(peer, {"tunnelProxyError": OK})
        asked = request["params"]["serverUuid"]
        check(uuid.UUID(asked) == uuid.UUID(expected), "the connection asks for %s instead of %s" % (asked, expected))
        time.sleep(0.3)
        peer.close()
    run.kill()
finally:
    shutil.rmtree(directory, ignore_errors=True)
''')
cpp("c17-first-server", '''#include <QCoreApplication>
#include <QTimer>
#include <QUrl>
#include <tunnelproxy/tunnelproxyremoteconnection.h>
using namespace remoteproxyclient;
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    TunnelProxyRemoteConnection connection(QUuid::createUuid(), "client", TunnelProxyRemoteConnection::ConnectionTypeTcpSocket);
    QUrl url(QString("tcp://127.0.0.1:%1").arg(argv[1]));
    QObject::connect(&connection, &TunnelProxyRemoteConnection::remoteConnectedChanged, [&](bool connected) {
        if (!connected)
            QTimer::singleShot(200, [&] { connection.connectServer(url, QUuid(argv[3])); });
    });
    QTimer::singleShot(15000, [] { exit(1); });
    connection.connectServer(url, QUuid(argv[2]));
    return app.exec();
}
''')

make("c18-large-write", "C18",
 "A write of more than 256 KiB to a client of the tunnel server.",
 "The rest of the data is written to whatever client has the socket address when the event loop runs again, behind data written in between.",
 [(RC + "tunnelproxy/tunnelproxysocket.cpp", '''    SlipDataProcessor::Frame frame;
''', '''    // Do not block the connection for other sockets with one large frame
    const int maximumSize = 256 * 1024;
    if (data.size() > maximumSize) {
        writeData(data.left(maximumSize));
        QMetaObject::invokeMethod(this, [this, data, maximumSize](){ writeData(data.mid(maximumSize)); }, Qt::QueuedConnection);
        return;
    }

    SlipDataProcessor::Frame frame;
''')],
 BUILDCPP + '''
directory = tempfile.mkdtemp(prefix="demo-")
try:
    program = build(directory)
    with Proxy() as proxy:
        su = new_uuid()
        run = subprocess.Popen([program, str(proxy.tcp), su], env=environment())
        client = Peer.tcp(proxy)
        for i in range(50):
            reply = register_client(client, new_uuid(), su)
            if reply == OK:
                break
            time.sleep(0.2)
            client = Peer.tcp(proxy)
        check(reply == OK, "client registration: %s" % reply)
        client.send(b"go")
        client.wait(lambda p: len(p.data) >= 600004, 20)
        check(client.data == b"a" * 600000 + b"tail", "%d bytes, in another order than written" % len(client.data))
        run.kill()
finally:
    shutil.rmtree(directory, ignore_errors=True)
''')
cpp("c18-large-write", '''#include <QCoreApplication>
#include <QTimer>
#include <QUrl>
#include <tunnelproxy/tunnelproxysocketserver.h>
#include <tunnelproxy/tunnelproxysocket.h>
using namespace remoteproxyclient;
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    TunnelProxySocketServer server(QUuid(argv[2]), "server", TunnelProxySocketServer::ConnectionTypeTcpSocket);
    QObject::connect(&server, &TunnelProxySocketServer::clientConnected, [&](TunnelProxySocket *socket) {
        QObject::connect(socket, &TunnelProxySocket::dataReceived, [socket](const QByteArray &) {
            socket->writeData(QByteArray(600000, 'a'));
            socket->writeData("tail");
        });
    });
    QTimer::singleShot(30000, [] { exit(0); });
    server.startServer(QUrl(QString("tcp://127.0.0.1:%1").arg(argv[1])));
    return app.exec();
}
''')

make("c14-ws-message-size", "C14",
 "A WebSocket message of more than 64 KiB.",
 "A WebSocket client which sends it is disconnected, a client on another transport is not.",
 [(L + "server/websocketserver.cpp", '''    // Append the new client to the client list
''', '''    // Limit the memory a message can take
    client->setMaxAllowedIncomingMessageSize(64 * 1024);

    // Append the new client to the client list
''')],
 '''
with Proxy() as proxy:
    su = new_uuid()
    server, client = Peer.tcp(proxy), WsPeer(proxy)
    check(register_server(server, su) == OK, "server registration")
    check(register_client(client, new_uuid(), su) == OK, "client registration")
    address = connected_address(server)
    client.send(b"x" * 100000)
    got = b""
    while len(got) < 100000:
        frame = server.frame(5)
        check(frame is not None and frame[0] == address, "the message did not arrive: %s" % (frame,))
        got += frame[1]
''')

make("c24-log-option", "C24",
 "A configuration file which enables the log file, and another file on the command line.",
 "The log is written to the configured file and not to the one given.",
 [("server/main.cpp", '''        configuration->setWriteLogFile(true);
        configuration->setLogFileName(parser.value(logfileOption));
''', '''        if (!configuration->writeLogFile())
            configuration->setLogFileName(parser.value(logfileOption));
        configuration->setWriteLogFile(true);
''')],
 '''
with Proxy(start=False) as proxy:
    t = open(proxy.config).read().replace("writeLogs=false", "writeLogs=true\\nlogFile=%s/config.log" % proxy.dir)
    open(proxy.config, "w").write(t)
    run = subprocess.Popen([BUILD + "/server/nymea-remoteproxy", "-c", proxy.config, "-l", proxy.dir + "/option.log"], env=environment(), stdout=subprocess.DEVNULL)
    time.sleep(2)
    run.terminate()
    run.wait()
    check(os.path.exists(proxy.dir + "/option.log") and os.path.getsize(proxy.dir + "/option.log") > 0, "nothing was logged to the file given on the command line")
''')

make("c25-echo-latest", "C25",
 "An echoing server of the tool with two clients, of which the first sends after the second has connected.",
 "What any client sends is echoed to the latest client.",
 [("tunnelclient/serverconnection.cpp", '''            connect(tunnelProxySocket, &TunnelProxySocket::dataReceived, m_socketServer, [tunnelProxySocket](const QByteArray &data){
                tunnelProxySocket->writeData(data);
            });
''', '''            static TunnelProxySocket *echoSocket = nullptr;
            echoSocket = tunnelProxySocket;
            connect(tunnelProxySocket, &TunnelProxySocket::dataReceived, m_socketServer, [](const QByteArray &data){
                echoSocket->writeData(data);
            });
''')],
 '''
with Proxy() as proxy:
    su = new_uuid()
    run = subprocess.Popen([BUILD + "/tunnelclient/nymea-remoteproxy-tunnelclient", "-u", "tcp://127.0.0.1:%d" % proxy.tcp, "-s", "-r", "--uuid", su], env=environment(), stdout=subprocess.DEVNULL)
    try:
        peers = []
        end = time.time() + 20
        while len(peers) < 2 and time.time() < end:
            peer = Peer.tcp(proxy)
            if register_client(peer, new_uuid(), su) == OK:
                peers.append(peer)
            else:
                time.sleep(0.3)
        check(len(peers) == 2, "the tool did not register")
        time.sleep(0.5)
        peers[0].send(b"first")
        peers[0].wait(lambda p: p.data == b"first", 5)
        check(peers[0].data == b"first" and peers[1].data == b"", "echo: %s and %s" % (peers[0].data, peers[1].data))
    finally:
        run.kill()
''')

make("c13-first-tick", "C13",
 "Tunnel traffic in a second in which the number of tunnel connections drops to zero.",
 "The throughput of that second is lost.",
 [(TS, '''    m_troughput = m_troughputCounter;
    m_troughputCounter = 0;
''', '''    m_troughput = m_tunnelProxyClientConnections.isEmpty() ? 0 : m_troughputCounter;
    m_troughputCounter = 0;
''')],
 '''
with Proxy() as proxy:
    seen = 0
    su = new_uuid()
    server = Peer.tcp(proxy)
    check(register_server(server, su) == OK, "server registration")
    for attempt in range(4):
        client = Peer.tcp(proxy)
        check(register_client(client, new_uuid(), su) == OK, "client registration")
        client.send(b"x" * 5000)
        server.wait(lambda p: len(p.data) >= 5000, 5)
        client.close()
        end = time.time() + 2.5
        best = 0
        while time.time() < end:
            best = max(best, proxy.statistics()["troughput"])
            time.sleep(0.1)
        seen += best == 5000
        server.pump(0)
        server.data = b""
    check(seen >= 2, "the traffic was shown %d of 4 times" % seen)
''')
