import os, sys; V = os.environ.get("VERIF", "/verif"); sys.path.insert(0, V + "/tools/seeding")
from mk import make
import os
L = "libnymea-remoteproxy/"
TS = L + "tunnelproxy/tunnelproxyserver.cpp"
TC = L + "tunnelproxy/tunnelproxyclient.cpp"
RC = "libnymea-remoteproxyclient/"

def cpp(id, source):
    """a demonstration which compiles a program against the client library; demo.py runs beside it"""
    open(V + "/seeded/%s/client.cpp" % id, "w").write(source)

BUILDCPP = '''
def build(directory):
    """Builds client.cpp against the client library."""
    flags = subprocess.run(["pkg-config", "--cflags", "--libs", "Qt5Core", "Qt5Network", "Qt5WebSockets"], check=True, stdout=subprocess.PIPE).stdout.decode().split()
    here = os.path.dirname(os.path.abspath(__file__))
    repo = os.getcwd()
    subprocess.run(["g++", "-std=c++17", "-fPIC", "-w", here + "/client.cpp", "-I" + repo + "/libnymea-remoteproxyclient", "-I" + repo, "-I" + BUILD,
                    "-L" + BUILD + "/libnymea-remoteproxyclient", "-lnymea-remoteproxyclient", "-o", directory + "/client"] + flags, check=True)
    return directory + "/client"


def accept(listener):
    listener.settimeout(20)
    s = listener.accept()[0]
    return Peer(s)


def answer(peer, result):
    """Answers the next request."""
    request = json.loads(peer.line())
    reply = {"id": request["id"], "status": "success", "params": result}
    reply.update(result.pop("_", {}))
    peer.send(json.dumps(reply).encode() + b"\\n")
    return request


HELLO = {"server": "s", "name": "n", "version": "v", "apiVersion": "a"}
'''

make("c12-limit-skipped", "C12",
 "An unregistered connection whose chunk completes a request and leaves more than 10 KiB of the next one.",
 "The buffer limit is not checked while a chunk completes a request, so more than 10 KiB are kept and the oversized request is executed.",
 [(L + "server/jsonrpcserver.cpp", "    if (transportClient->bufferSize() > 1024 * 10) {", "    if (packets.isEmpty() && transportClient->bufferSize() > 1024 * 10) {")],
 '''
with Proxy() as proxy:
    peer = Peer.unix(proxy)
    peer.send(peer.request("RemoteProxy.Hello") + b'{"id":9,"method":"RemoteProxy.Hello","params":{' + b" " * 12000)
    peer.quiet(1)
    check(peer.eof, "a connection with 12000 bytes of an incomplete request was not closed")
''')

make("c16-enabled-one", "C16",
 "A configuration file which enables TLS with 1 instead of true.",
 "TLS is silently switched off: peers are served without encryption.",
 [(L + "proxyconfiguration.cpp", 'setSslEnabled(settings.value("enabled", true).toBool());', 'setSslEnabled(settings.value("enabled", "true").toString().toLower() == "true");')],
 '''
for value in ("true", "1"):
    with Proxy(ssl=value) as proxy:
        peer = Peer.tcp(proxy)
        peer.send(peer.request("RemoteProxy.Hello"))
        check(peer.line(2) is None, "an answer without encryption with enabled=" + value)
''')

make("c21-handshake-progress", "C21",
 "A TCP peer which starts the TLS handshake shortly before the 5 seconds are over and does not finish it.",
 "The time limit of the TLS handshake starts again with each message of the handshake.",
 [(L + "server/tcpsocketserver.cpp", "    connect(this, &SslClient::encrypted, &m_timer, &QTimer::stop);\n", '''    connect(this, &SslClient::encrypted, &m_timer, &QTimer::stop);

    // Give slow connections a chance to finish the handshake
    connect(this, &SslClient::encryptedBytesWritten, this, [this](){
        if (m_timer.isActive())
            m_timer.start();
    });
'''),
 (L + "server/tcpsocketserver.cpp", 'QTcpServer(parent),\n    m_sslEnabled', 'QTcpServer(parent),\n    m_sslEnabled')][:1],
 '''
import ssl
with Proxy(ssl="true") as proxy:
    peer = Peer.tcp(proxy)
    began = time.time()
    time.sleep(4)
    context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    context.check_hostname = False
    context.verify_mode = ssl.CERT_NONE
    incoming, outgoing = ssl.MemoryBIO(), ssl.MemoryBIO()
    tls = context.wrap_bio(incoming, outgoing)
    try:
        tls.do_handshake()
    except ssl.SSLWantReadError:
        pass
    peer.send(outgoing.read())
    peer.wait_closed(15)
    took = time.time() - began
    check(peer.eof and took < 7.5, "an unfinished handshake was ended after %.1f s" % took)
''')

make("c02-drop-backlog", "C02",
 "A tunnel peer on TCP which reads slowly while more than 2 MB queue up for it.",
 "Data for a slow reader is dropped from the middle of the stream.",
 [(L + "server/tcpsocketserver.cpp", '''    qCDebug(dcTcpSocketServerTraffic()) << "Send data to" << clientId.toString() << data;
''', '''    qCDebug(dcTcpSocketServerTraffic()) << "Send data to" << clientId.toString() << data;
    if (client->bytesToWrite() > 2 * 1024 * 1024) {
        qCWarning(dcTcpSocketServer()) << "The client is not reading the data. Discard data for" << clientId.toString();
        return;
    }

''')],
 '''
with Proxy() as proxy:
    su = new_uuid()
    server, client = Peer.tcp(proxy), Peer.tcp(proxy)
    check(register_server(server, su) == OK, "server registration")
    check(register_client(client, new_uuid(), su) == OK, "client registration")
    address = connected_address(server)
    total = 0
    for i in range(900):
        payload = (b"%08d" % i) * 2000
        total += len(payload)
        server.send(slip(address, payload))
    time.sleep(1)
    client.wait(lambda p: len(p.data) >= total, 30)
    check(len(client.data) == total, "%d of %d bytes arrived" % (len(client.data), total))
''')

make("c07-unknown-address-kill", "C07",
 "A DisconnectClient request for an address which is not in use any more.",
 "The proxy closes the requesting server, and with it all of its clients.",
 [(TS, '''        return TunnelProxyServer::TunnelProxyErrorUnknownSocketAddress;
''', '''        tunnelProxyClient->killConnectionAfterResponse("Unknown socket address");
        return TunnelProxyServer::TunnelProxyErrorUnknownSocketAddress;
''')],
 '''
with Proxy() as proxy:
    su = new_uuid()
    server, gone, client = Peer.tcp(proxy), Peer.tcp(proxy), Peer.tcp(proxy)
    check(register_server(server, su) == OK, "server registration")
    check(register_client(gone, new_uuid(), su) == OK, "client registration")
    address = connected_address(server)
    check(register_client(client, new_uuid(), su) == OK, "client registration")
    connected_address(server)
    gone.close()
    server.frame()
    reply = server.call_frame("TunnelProxy.DisconnectClient", {"socketAddress": address})
    check(error_of(reply) == "TunnelProxyErrorUnknownSocketAddress", "reply %s" % reply)
    client.quiet(1)
    check(not client.eof, "the other client was disconnected")
    check(server.call_frame("TunnelProxy.Ping", {"timestamp": 1}) is not None, "the server was disconnected")
''')

make("c09-three-part-method", "C09",
 "A request whose method has more than two parts, such as RemoteProxy.Foo.Hello.",
 "Malformed method names are accepted: the parts between namespace and method are ignored and the request is executed.",
 [(L + "server/jsonrpcserver.cpp", "    if (commandList.count() != 2) {", "    if (commandList.count() < 2) {")],
 '''
with Proxy() as proxy:
    for method in ("RemoteProxy.Foo.Hello", "RemoteProxy..Hello"):
        peer = Peer.tcp(proxy)
        reply = peer.call(method)
        check(reply is not None and reply["status"] == "error", "reply to %s: %s" % (method, reply))
        check(peer.wait_closed(5), "not closed")
''')

make("c08-control-newline", "C08",
 "A registered server which sends an invalid request in a control frame.",
 "The error reply in the control frame is not terminated by a newline, so clients which split messages at newlines never see it.",
 [(L + "server/jsonrpcserver.cpp", '''    errorResponse.insert("error", error);

    QByteArray data = QJsonDocument::fromVariant(errorResponse).toJson(QJsonDocument::Compact);
    qCDebug(dcJsonRpcTraffic()) << "Sending data:" << data;
    if (client->slipEnabled()) {
        SlipDataProcessor::Frame frame;
        frame.socketAddress = 0x0000;
        frame.data = data + "\\n";''', '''    errorResponse.insert("error", error);

    QByteArray data = QJsonDocument::fromVariant(errorResponse).toJson(QJsonDocument::Compact);
    qCDebug(dcJsonRpcTraffic()) << "Sending data:" << data;
    if (client->slipEnabled()) {
        SlipDataProcessor::Frame frame;
        frame.socketAddress = 0x0000;
        frame.data = data;''')],
 '''
with Proxy() as proxy:
    server = Peer.tcp(proxy)
    check(register_server(server, new_uuid()) == OK, "server registration")
    server.send(slip(0, server.request("RemoteProxy.Unknown")))
    frame = server.frame()
    check(frame is not None and frame[0] == 0 and frame[1].endswith(b"}\\n"), "reply %r" % (frame,))
''')

make("c11-activity-extends", "C11",
 "A connection which does not register, but keeps sending something within the inactivity timeout.",
 "Any data extends the time an unregistered connection may stay, so it can stay for ever.",
 [(TC, '''    // We must receive data, transmitt does not mean the socket is not dead
    connect(this, &TransportClient::rxDataCountChanged, this, [this](){
        m_inactiveTimer->start();
    });

''', ''), (TC, '''    m_inactiveTimer->start();
}

TunnelProxyClient::Type''', '''    // We must receive data, transmitt does not mean the socket is not dead
    connect(this, &TransportClient::rxDataCountChanged, this, [this](){
        if (m_inactiveTimer->isActive())
            m_inactiveTimer->start();
    });

    m_inactiveTimer->start();
}

TunnelProxyClient::Type''')],
 '''
with Proxy(inactive=2000) as proxy:
    peer = Peer.tcp(proxy)
    began = time.time()
    while time.time() - began < 6 and not peer.eof:
        try:
            peer.send(peer.request("RemoteProxy.Hello"))
        except OSError:
            break
        peer.quiet(0.5)
    check(peer.eof and time.time() - began < 5, "an unregistered connection was not closed")
''')

make("c05-address-leak", "C05",
 "A server which refers to the address of a client that has gone.",
 "The address of a client is not released when it goes: the entry refers to a deleted object, DisconnectClient for it succeeds or crashes and the address is never used again.",
 [(L + "tunnelproxy/tunnelproxyserverconnection.cpp", '''    m_clientConnectionsAddresses.remove(clientConnection->socketAddress());
    clientConnection->setSocketAddress(0xFFFF);
''', '''    clientConnection->setSocketAddress(0xFFFF);
    m_clientConnectionsAddresses.remove(clientConnection->socketAddress());
''')],
 '''
with Proxy() as proxy:
    su = new_uuid()
    server, client = Peer.tcp(proxy), Peer.tcp(proxy)
    check(register_server(server, su) == OK, "server registration")
    check(register_client(client, new_uuid(), su) == OK, "client registration")
    address = connected_address(server)
    client.close()
    server.frame()
    time.sleep(0.3)
    reply = server.call_frame("TunnelProxy.DisconnectClient", {"socketAddress": address})
    check(error_of(reply) == "TunnelProxyErrorUnknownSocketAddress", "reply %s, proxy alive: %s" % (reply, proxy.alive()))
''')

make("c20-exact-kilobyte", "C20",
 "A byte count which is exactly 1024 or a power of it.",
 "The monitor prints 1024.00 B instead of 1.00 KB.",
 [("monitor/utils.h", "while(dataCount >= 1024.0 && i.hasNext()) {", "while(dataCount > 1024.0 && i.hasNext()) {")],
 '''
with Proxy() as proxy:
    su = new_uuid()
    server, client = Peer.tcp(proxy), Peer.tcp(proxy)
    check(register_server(server, su) == OK, "server registration")
    check(register_client(client, new_uuid(), su) == OK, "client registration")
    connected_address(server)
    rx = proxy.statistics()["tunnelConnections"][0]["clientConnections"][0]["rxDataCount"]
    client.send(b"x" * (1024 - rx))
    time.sleep(0.5)
    out = subprocess.run([BUILD + "/monitor/nymea-remoteproxy-monitor", "-s", proxy.monitor, "-n"], env=environment(), stdout=subprocess.PIPE, timeout=30).stdout.decode()
    row = [l for l in out.splitlines() if "\\u2502\\u2514\\u2500" in l]
    check(len(row) == 1 and "RX: 1.00 KB" in row[0], "monitor output: %s" % (row or out))
''')

make("c17-json-error", "C17",
 "A proxy which answers the registration of a client with a JSON-RPC error and keeps the connection.",
 "The remote connection ignores the error: it stays connected for ever without being registered.",
 [(RC + "tunnelproxy/tunnelproxyremoteconnection.cpp", '''JSON RPC error. Failed to register as tunnel client on the remote proxy server.";
        m_connection->disconnectServer();
        return;''', '''JSON RPC error. Failed to register as tunnel client on the remote proxy server.";
        return;''')],
 BUILDCPP + '''
directory = tempfile.mkdtemp(prefix="demo-")
try:
    program = build(directory)
    listener = socket.create_server(("127.0.0.1", 0))
    run = subprocess.Popen([program, str(listener.getsockname()[1])], env=environment(), stdout=subprocess.PIPE)
    peer = accept(listener)
    answer(peer, dict(HELLO))
    answer(peer, {"_": {"status": "error", "error": "no"}})
    try:
        out = run.communicate(timeout=20)[0]
    except subprocess.TimeoutExpired:
        run.kill()
        fail("no end")
    check(run.returncode == 0, "the connection was not reported as disconnected: %s" % out)
finally:
    shutil.rmtree(directory, ignore_errors=True)
''')
cpp("c17-json-error", '''#include <QCoreApplication>
#include <QTimer>
#include <QUrl>
#include <tunnelproxy/tunnelproxyremoteconnection.h>
using namespace remoteproxyclient;
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    TunnelProxyRemoteConnection connection(QUuid::createUuid(), "client", TunnelProxyRemoteConnection::ConnectionTypeTcpSocket);
    bool registering = false;
    QObject::connect(&connection, &TunnelProxyRemoteConnection::stateChanged, [&](TunnelProxyRemoteConnection::State state) {
        registering |= state == TunnelProxyRemoteConnection::StateRegister;
        if (registering && state == TunnelProxyRemoteConnection::StateDisconnected)
            QTimer::singleShot(0, [] { exit(0); });
    });
    QTimer::singleShot(8000, [] { exit(1); });
    connection.connectServer(QUrl(QString("tcp://127.0.0.1:%1").arg(argv[1])), QUuid::createUuid());
    return app.exec();
}
''')

make("c19-read-limit", "C19",
 "More than 64 KiB which are waiting in the socket when a busy application returns to its event loop.",
 "The client library leaves data in the socket until more data arrives, the end of a transfer does not come out of the tunnel.",
 [(RC + "tcpsocketconnection.cpp", "emit dataReceived(m_tcpSocket->readAll());", "emit dataReceived(m_tcpSocket->read(64 * 1024));")],
 BUILDCPP + '''
directory = tempfile.mkdtemp(prefix="demo-")
try:
    program = build(directory)
    with Proxy() as proxy:
        su = new_uuid()
        server = Peer.tcp(proxy)
        check(register_server(server, su) == OK, "server registration")
        run = subprocess.Popen([program, str(proxy.tcp), su], env=environment(), stdout=subprocess.PIPE)
        address = connected_address(server)
        for i in range(12):
            server.send(slip(address, b"x" * 50000))
        check(run.wait(30) == 0, "not all data came out of the tunnel")
finally:
    shutil.rmtree(directory, ignore_errors=True)
''')
cpp("c19-read-limit", '''#include <QCoreApplication>
#include <QTimer>
#include <QThread>
#include <QUrl>
#include <cstdio>
#include <tunnelproxy/tunnelproxyremoteconnection.h>
using namespace remoteproxyclient;
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    TunnelProxyRemoteConnection connection(QUuid::createUuid(), "client", TunnelProxyRemoteConnection::ConnectionTypeTcpSocket);
    int received = 0;
    QObject::connect(&connection, &TunnelProxyRemoteConnection::remoteConnectedChanged, [&](bool connected) {
        if (connected)
            QTimer::singleShot(0, [] { QThread::sleep(3); }); // busy
    });
    QObject::connect(&connection, &TunnelProxyRemoteConnection::dataReady, [&](const QByteArray &data) {
        received += data.size();
        if (received == 600000)
            exit(0);
    });
    QTimer::singleShot(12000, [&] { fprintf(stderr, "%d bytes\\n", received); exit(1); });
    connection.connectServer(QUrl(QString("tcp://127.0.0.1:%1").arg(argv[1])), QUuid(argv[2]));
    return app.exec();
}
''')

make("c18-partial-frame", "C18",
 "A proxy connection which is lost within a frame, and the first frame after the server has reconnected.",
 "The part of the frame from the old connection is put in front of the first frame of the new one.",
 [(RC + "tunnelproxy/tunnelproxysocketserver.cpp", '''        m_jsonClient->processData(data.mid(position, length));
        m_dataBuffer.clear();
''', '''        m_jsonClient->processData(data.mid(position, length));
''')],
 BUILDCPP + '''
directory = tempfile.mkdtemp(prefix="demo-")
try:
    program = build(directory)
    listener = socket.create_server(("127.0.0.1", 0))
    run = subprocess.Popen([program, str(listener.getsockname()[1])], env=environment(), stdout=subprocess.PIPE)
    for attempt in range(2):
        peer = accept(listener)
        answer(peer, dict(HELLO))
        answer(peer, {"tunnelProxyError": OK})
        time.sleep(0.5)
        message = {"id": 0, "notification": "TunnelProxy.ClientConnected", "params": {"clientName": "c", "clientUuid": new_uuid(), "clientPeerAddress": "127.0.0.1", "socketAddress": 5 + attempt}}
        peer.send(slip(0, json.dumps(message).encode() + b"\\n"))
        peer.send(slip(5 + attempt, b"incomplete")[:-4])
        time.sleep(0.5)
        peer.close()
    out = run.communicate(timeout=30)[0].decode().split()
    check(out == ["5", "6"], "the server announced the clients %s" % out)
finally:
    shutil.rmtree(directory, ignore_errors=True)
''')
cpp("c18-partial-frame", '''#include <QCoreApplication>
#include <QTimer>
#include <QUrl>
#include <cstdio>
#include <tunnelproxy/tunnelproxysocketserver.h>
#include <tunnelproxy/tunnelproxysocket.h>
using namespace remoteproxyclient;
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    TunnelProxySocketServer server(QUuid::createUuid(), "server", TunnelProxySocketServer::ConnectionTypeTcpSocket);
    QObject::connect(&server, &TunnelProxySocketServer::clientConnected, [&](TunnelProxySocket *socket) {
        printf("%d\\n", socket->socketAddress());
        fflush(stdout);
    });
    QTimer::singleShot(13000, [] { exit(0); });
    server.startServer(QUrl(QString("tcp://127.0.0.1:%1").arg(argv[1])));
    return app.exec();
}
''')
