import os, sys; V = os.environ.get("VERIF", "/verif"); sys.path.insert(0, V + "/tools/seeding")
from mk import make
exec(open(V + "/tools/seeding/bugs2.py").read().split('make("c12-limit-skipped"')[0])

BUILDENGINE = '''
def build(directory, moc=False):
    """Builds engine.cpp against the library of the proxy."""
    flags = subprocess.run(["pkg-config", "--cflags", "--libs", "Qt5Core", "Qt5Network", "Qt5WebSockets"], check=True, stdout=subprocess.PIPE).stdout.decode().split()
    here = os.path.dirname(os.path.abspath(__file__))
    repo = os.getcwd()
    if moc:
        tool = subprocess.run(["qmake", "-query", "QT_HOST_BINS"], check=True, stdout=subprocess.PIPE).stdout.decode().strip() + "/moc"
        subprocess.run([tool, here + "/engine.cpp", "-o", directory + "/engine.moc"], check=True, stderr=subprocess.DEVNULL)
    subprocess.run(["g++", "-std=c++17", "-fPIC", "-w", here + "/engine.cpp", "-I" + directory, "-I" + repo + "/libnymea-remoteproxy", "-I" + repo, "-I" + BUILD,
                    '-DSERVER_NAME_STRING="a"', '-DSERVER_VERSION_STRING="a"', '-DAPI_VERSION_STRING="a"',
                    "-L" + BUILD + "/libnymea-remoteproxy", "-lnymea-remoteproxy", "-o", directory + "/engine"] + flags, check=True)
    return directory + "/engine"


def run_engine(moc=False, timeout=120):
    proxy = Proxy(start=False)
    try:
        program = build(proxy.dir, moc)
        p = subprocess.run([program, proxy.config, proxy.unix, str(proxy.tcp)], env=environment(), stdout=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode()
    finally:
        shutil.rmtree(proxy.dir, ignore_errors=True)
'''

ENGINE = '''#include <QCoreApplication>
#include <QElapsedTimer>
#include <QJsonDocument>
#include <QLocalSocket>
#include <QTcpSocket>
#include <QThread>
#include <cstdio>
#include <functional>
#include <engine.h>
#include <proxyconfiguration.h>
#include <server/jsonrpcserver.h>
#include <tunnelproxy/tunnelproxyserver.h>
using namespace remoteproxy;
static bool wait(std::function<bool()> condition, int ms = 10000)
{
    QElapsedTimer timer;
    timer.start();
    while (!condition() && timer.elapsed() < ms) {
        QCoreApplication::processEvents(QEventLoop::AllEvents, 5);
        QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
        QThread::msleep(1);
    }
    return condition();
}
static void pause(int ms)
{
    wait([](){ return false; }, ms);
}
static ProxyConfiguration *configuration(char **argv)
{
    ProxyConfiguration *c = new ProxyConfiguration(nullptr);
    if (!c->loadConfiguration(argv[1])) {
        printf("no configuration\\n");
        exit(1);
    }
    return c;
}
static QByteArray request(int id, const char *method, const QVariantMap &params)
{
    QVariantMap m;
    m["id"] = id;
    m["method"] = method;
    m["params"] = params;
    return QJsonDocument::fromVariant(m).toJson(QJsonDocument::Compact) + "\\n";
}
'''

def engine(id, source):
    open(V + "/seeded/%s/engine.cpp" % id, "w").write(ENGINE + source)

make("c12-early-check", "C12",
 "Complete requests which arrive together and are more than 10 KiB in total, or one which arrives in pieces that way.",
 "The limit counts what arrived instead of what is still incomplete: a client with valid requests is thrown out.",
 [(L + "server/jsonrpcserver.cpp", '''    // Handle packet fragmentation
    QList<QByteArray> packets = transportClient->processData(data);

    // Make sure the buffer size is in range
    if (transportClient->bufferSize() > 1024 * 10) {
        qCWarning(dcJsonRpc()) << "Data buffer size violation from" << transportClient;
        transportClient->killConnection("Data buffer size violation.");
        return;
    }
''', '''    // Make sure the buffer size is in range, do not even look into the data otherwise
    if (transportClient->bufferSize() + data.size() > 1024 * 10) {
        qCWarning(dcJsonRpc()) << "Data buffer size violation from" << transportClient;
        transportClient->killConnection("Data buffer size violation.");
        return;
    }

    // Handle packet fragmentation
    QList<QByteArray> packets = transportClient->processData(data);
''')],
 '''
with Proxy() as proxy:
    a = Peer.unix(proxy)
    a.send(b"".join(a.request("RemoteProxy.Hello") for i in range(400)))
    for i in range(400):
        line = a.line()
        check(line is not None, "request %d of 400 was not answered" % (i + 1))
        check(json.loads(line)["id"] == i + 1, "reply %d has the id %s" % (i + 1, line))
''')

make("c15-orphan-sockets", "C15",
 "A TCP client which does not receive what was sent to it when the engine is stopped.",
 "The connection survives the stopped engine.",
 [(L + "server/tcpsocketserver.cpp", '''    SslClient *sslSocket = new SslClient(this);
''', '''    SslClient *sslSocket = new SslClient(nullptr);
''')],
 BUILDENGINE + '''
code, out = run_engine()
check(code == 0, out)
''')
engine("c15-orphan-sockets", '''
#include <unistd.h>
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    Engine::instance()->start(configuration(argv));
    wait([](){ return Engine::instance()->running(); });
    QTcpSocket peer;
    peer.setReadBufferSize(1);
    peer.connectToHost("127.0.0.1", atoi(argv[3]));
    if (!wait([&](){ return peer.state() == QAbstractSocket::ConnectedState; })) {
        printf("not connected\\n");
        return 1;
    }
    // Many answers, none of which is received
    for (int i = 0; i < 4000; i++) {
        peer.write(request(i, "RemoteProxy.Introspect", {}));
        if (i % 50 == 0)
            pause(5);
    }
    pause(1000);
    Engine::instance()->stop();
    pause(500);
    // Somebody who closed the socket does not answer any more, and nothing may hold a descriptor of it
    int open = 0;
    for (int fd = 3; fd < 200; fd++) {
        QByteArray target(100, 0);
        ssize_t n = readlink(qPrintable(QString("/proc/self/fd/%1").arg(fd)), target.data(), 99);
        if (n > 0 && target.startsWith("socket:"))
            open++;
    }
    // The own socket of this program is the only one
    if (open != 1) {
        printf("%d sockets are open\\n", open);
        return 1;
    }
    return 0;
}
''')

make("c23-late-close", "C23",
 "A deferred reply which fails while another one of the same client is still pending.",
 "The client is not disconnected behind the failed reply.",
 [(L + "server/jsonrpcserver.cpp", '''    // If the server decided to kill the connection after the response, do it now
    if (transportClient->killConnectionRequested()) {
        transportClient->killConnection(transportClient->killConnectionReason());
    }
}
''', '''    // If the server decided to kill the connection after the response, do it once everything has been answered
    if (transportClient->killConnectionRequested() && m_asyncReplies.keys(transportClient).isEmpty()) {
        transportClient->killConnection(transportClient->killConnectionReason());
    }
}
''')],
 BUILDENGINE + '''
code, out = run_engine(moc=True)
check(code == 0, out)
''')
engine("c23-late-close", '''#include <jsonrpc/jsonhandler.h>
#include <jsonrpc/jsonreply.h>
namespace remoteproxy {
class Handler : public JsonHandler
{
    Q_OBJECT
public:
    QList<JsonReply *> replies;
    Handler() : JsonHandler(nullptr)
    {
        setDescription("Wait", "Waits");
        setParams("Wait", {});
        setReturns("Wait", {});
    }
    QString name() const override { return "Test"; }
    Q_INVOKABLE JsonReply *Wait(const QVariantMap &params, TransportClient *client)
    {
        replies.append(createAsyncReply("Wait"));
        return replies.last();
    }
};
}
#include "engine.moc"
#define private public
#define protected public
#include <server/transportinterface.h>
#include <server/transportclient.h>
class Interface : public TransportInterface
{
public:
    QList<QByteArray> sent;
    bool closed = false;
    void sendData(const QUuid &, const QByteArray &data) override { sent.append(data); }
    void killClientConnection(const QUuid &, const QString &) override { closed = true; }
    void abortClientConnection(const QUuid &) override { closed = true; }
    uint connectionsCount() const override { return 1; }
    bool running() const override { return true; }
    bool startServer() override { return true; }
    bool stopServer() override { return true; }
};
class Client : public TransportClient
{
public:
    Client(TransportInterface *i) : TransportClient(i, QUuid::createUuid(), QHostAddress::LocalHost) {}
    QList<QByteArray> processData(const QByteArray &data) override { return {data}; }
};
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    Engine::instance()->start(configuration(argv));
    wait([](){ return Engine::instance()->running(); });
    Handler handler;
    JsonRpcServer server;
    server.registerHandler(&handler);
    Interface interface;
    Client client(&interface);
    server.registerClient(&client);
    server.processData(&client, request(1, "Test.Wait", {}));
    server.processData(&client, request(2, "Test.Wait", {}));
    if (handler.replies.size() != 2) {
        printf("%d calls\\n", handler.replies.size());
        return 1;
    }
    handler.replies[0]->setSuccess(false);
    emit handler.replies[0]->finished();
    pause(100);
    if (interface.sent.size() != 1 || !interface.closed) {
        printf("%d replies, closed %d\\n", interface.sent.size(), interface.closed);
        return 1;
    }
    server.unregisterClient(&client);
    emit handler.replies[1]->finished();
    pause(100);
    return 0;
}
''')

make("c06-cached-name", "C06",
 "A client which comes back with the same UUID and another name.",
 "The server is told the name the client had before.",
 [(TS, '''    params.insert("clientName", tunnelProxyClient->name());
''', '''    static QHash<QUuid, QString> names;
    if (!names.contains(tunnelProxyClient->uuid()))
        names.insert(tunnelProxyClient->uuid(), tunnelProxyClient->name());
    params.insert("clientName", names.value(tunnelProxyClient->uuid()));
''')],
 '''
with Proxy() as proxy:
    su, cu = new_uuid(), new_uuid()
    server = Peer.unix(proxy)
    check(register_server(server, su) == OK, "server registration")
    for name in ["first", "second"]:
        client = Peer.tcp(proxy)
        check(register_client(client, cu, su, name) == OK, "client registration")
        message = json.loads(server.frame()[1])
        check(message["params"]["clientName"] == name, "the client %s was announced as %s" % (name, message["params"]["clientName"]))
        client.close()
        check("ClientDisconnected" in json.loads(server.frame()[1])["notification"], "no ClientDisconnected")
''')

make("c26-orphan-connection", "C26",
 "A client whose server leaves first.",
 "The client connection object stays until the proxy ends.",
 [(TS, '''                m_jsonRpcServer->sendNotification("TunnelProxy", "ClientDisconnected", params, serverConnection->transportClient());
            }

            clientConnection->deleteLater();
''', '''                m_jsonRpcServer->sendNotification("TunnelProxy", "ClientDisconnected", params, serverConnection->transportClient());
                clientConnection->deleteLater();
            }
''')],
 BUILDENGINE + '''
code, out = run_engine()
check(code == 0, out)
''')
engine("c26-orphan-connection", '''
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    Engine::instance()->start(configuration(argv));
    wait([](){ return Engine::instance()->running(); });
    TunnelProxyServer *proxy = Engine::instance()->tunnelProxyServer();
    int before = proxy->findChildren<QObject *>().size();
    for (int i = 0; i < 5; i++) {
        QString serverUuid = QUuid::createUuid().toString();
        QLocalSocket server, client;
        server.connectToServer(argv[2]);
        server.write(request(1, "TunnelProxy.RegisterServer", {{"serverUuid", serverUuid}, {"serverName", "s"}}));
        if (!wait([&](){ return server.bytesAvailable() > 0; }))
            return 1;
        client.connectToServer(argv[2]);
        client.write(request(1, "TunnelProxy.RegisterClient", {{"serverUuid", serverUuid}, {"clientUuid", QUuid::createUuid().toString()}, {"clientName", "c"}}));
        if (!wait([&](){ return client.bytesAvailable() > 0; }))
            return 1;
        server.abort();
        if (!wait([&](){ return client.state() == QLocalSocket::UnconnectedState; })) {
            printf("the client stayed\\n");
            return 1;
        }
    }
    pause(500);
    int after = proxy->findChildren<QObject *>().size();
    if (after != before) {
        printf("%d objects before, %d behind the connections\\n", before, after);
        return 1;
    }
    Engine::instance()->stop();
    return 0;
}
''')

make("c16-previous-chain", "C16",
 "Two configuration files loaded one after another, the second one without a certificate chain.",
 "The chain of the first file is used.",
 [(L + "proxyconfiguration.cpp", '''settings.value("certificateChain", "").toString()''', '''settings.value("certificateChain", m_sslCertificateChainFileName).toString()''')],
 BUILDENGINE + '''
proxy = Proxy(start=False)
try:
    program = build(proxy.dir)
    text = open(proxy.config).read()
    open(proxy.dir + "/chain.conf", "w").write(text.replace("[SSL]\\n", "[SSL]\\ncertificateChain=%s/cert.pem\\n" % proxy.dir))
    p = subprocess.run([program, proxy.config, proxy.dir + "/chain.conf"], env=environment(), stdout=subprocess.PIPE, timeout=60)
    check(p.returncode == 0, p.stdout.decode())
finally:
    shutil.rmtree(proxy.dir, ignore_errors=True)
''')
engine("c16-previous-chain", '''
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    ProxyConfiguration c;
    if (!c.loadConfiguration(argv[2]) || c.sslCertificateChainFileName().isEmpty() || !c.loadConfiguration(argv[1])) {
        printf("could not load\\n");
        return 1;
    }
    if (!c.sslCertificateChainFileName().isEmpty()) {
        printf("chain %s\\n", qPrintable(c.sslCertificateChainFileName()));
        return 1;
    }
    return 0;
}
''')

make("c18-lazy-ping", "C18",
 "A tunnel server which receives data all the time and sends nothing.",
 "The keep alive request is put off by received data, the proxy hears nothing and drops the server.",
 [(RC + "tunnelproxy/tunnelproxysocketserver.cpp", '''    // Parse SLIP frame
''', '''    // The connection is alive
    m_keepAliveTimer.start();

    // Parse SLIP frame
''')],
 BUILDCPP + '''
def notification(name, **params):
    return slip(0, json.dumps({"id": 0, "notification": "TunnelProxy." + name, "params": params}).encode() + b"\\n")


directory = tempfile.mkdtemp(prefix="demo-")
try:
    program = build(directory)
    listener = socket.create_server(("127.0.0.1", 0))
    run = subprocess.Popen([program, str(listener.getsockname()[1])], env=environment(), stdout=subprocess.DEVNULL)
    try:
        peer = accept(listener)
        answer(peer, dict(HELLO))
        answer(peer, {"tunnelProxyError": OK})
        time.sleep(0.5)
        peer.send(notification("ClientConnected", clientName="a", clientUuid=new_uuid(), clientPeerAddress="127.0.0.1", socketAddress=7))
        end = time.time() + 45
        while time.time() < end and not peer.data:
            peer.send(slip(7, b"hello"))
            peer.quiet(3)
        check(b"TunnelProxy.Ping" in peer.data, "no keep alive request within 45 seconds: %s" % peer.data)
    finally:
        run.kill()
        run.wait()
finally:
    shutil.rmtree(directory, ignore_errors=True)
''')
cpp("c18-lazy-ping", '''#include <QCoreApplication>
#include <QUrl>
#include <tunnelproxy/tunnelproxysocketserver.h>
using namespace remoteproxyclient;
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    TunnelProxySocketServer server(QUuid::createUuid(), "server", TunnelProxySocketServer::ConnectionTypeTcpSocket);
    server.startServer(QUrl(QString("tcp://127.0.0.1:%1").arg(argv[1])));
    return app.exec();
}
''')

make("c13-sticky-print-all", "C13",
 "A monitor request without printAll behind one which asked for everything.",
 "Servers without clients are reported although nobody asked for them.",
 [(L + "server/monitorserver.cpp", '''            bool printAll = false;
            if (request.contains("params")) {
                QVariantMap params = request.value("params").toMap();
                if (params.contains("printAll")) {
                    printAll = params.value("printAll").toBool();
                }
            }
''', '''            // A monitor which does not pass any params keeps its selection
            bool printAll = clientConnection->property("printAll").toBool();
            if (request.contains("params")) {
                QVariantMap params = request.value("params").toMap();
                if (params.contains("printAll")) {
                    printAll = params.value("printAll").toBool();
                    clientConnection->setProperty("printAll", printAll);
                }
            }
''')],
 '''
with Proxy() as proxy:
    server = Peer.unix(proxy)
    check(register_server(server, new_uuid()) == OK, "server registration")
    s = socket.socket(socket.AF_UNIX)
    s.connect(proxy.monitor)
    monitor = Peer(s)
    counts = []
    for request in [{"method": "refresh"}, {"method": "refresh", "params": {"printAll": True}}, {"method": "refresh"}]:
        monitor.send(json.dumps(request).encode())
        counts.append(len(json.loads(monitor.line())["tunnelProxyStatistic"]["tunnelConnections"]))
    check(counts == [0, 1, 0], "servers reported: %s" % counts)
''')

make("c22-empty-control", "C22",
 "A control frame without any payload.",
 "It is ignored, the server waits for an answer.",
 [(TS, '''                if (frame.socketAddress == 0x0000) {
                    qCDebug(dcTunnelProxyServerTraffic()) << "Received frame for the JSON server" << tunnelProxyClient;
''', '''                if (frame.data.isEmpty()) {
                    qCDebug(dcTunnelProxyServerTraffic()) << "Nothing to forward";
                } else if (frame.socketAddress == 0x0000) {
                    qCDebug(dcTunnelProxyServerTraffic()) << "Received frame for the JSON server" << tunnelProxyClient;
''')],
 '''
with Proxy() as proxy:
    server = Peer.unix(proxy)
    check(register_server(server, new_uuid()) == OK, "server registration")
    server.send(slip(0, b""))
    frame = server.frame(3)
    check(frame is not None and frame[0] == 0 and json.loads(frame[1])["status"] == "error", "the reply is %s" % (frame,))
''')

make("c03-byte-address", "C03",
 "Data for a socket address above 255 which is not connected, or more than 255 clients.",
 "Only the lower byte of the address counts, the data reaches another client.",
 [(L + "tunnelproxy/tunnelproxyserverconnection.cpp", """TunnelProxyServerConnection::getClientConnection(quint16 socketAddress)
""", """TunnelProxyServerConnection::getClientConnection(quint8 socketAddress)
"""), (L + "tunnelproxy/tunnelproxyserverconnection.h", "getClientConnection(quint16 socketAddress)", "getClientConnection(quint8 socketAddress)")],
 """
with Proxy() as proxy:
    su = new_uuid()
    server, client = Peer.unix(proxy), Peer.tcp(proxy)
    check(register_server(server, su) == OK and register_client(client, new_uuid(), su) == OK, "registration")
    address = json.loads(server.frame()[1])["params"]["socketAddress"]
    client.line(0.3)
    client.data = b""
    server.send(slip(address + 256, b"secret") + slip(address, b"hello"))
    client.quiet(1)
    check(client.data == b"hello", "the client got %s" % client.data)
""")

make("c10-trusted-server", "C10",
 "A request of a registered server with parameters which do not match the template.",
 "The parameters of registered servers are not validated any more.",
 [(L + "server/jsonrpcserver.cpp", """    QPair<bool, QString> validationResult = handler->validateParams(method, params);
    if (!validationResult.first) {
""", """    QPair<bool, QString> validationResult = handler->validateParams(method, params);
    if (!validationResult.first && !transportClient->slipEnabled()) {
""")],
 """
with Proxy() as proxy:
    server = Peer.unix(proxy)
    check(register_server(server, new_uuid()) == OK, "registration")
    reply = server.call_frame("TunnelProxy.Ping", {"timestamp": 1, "unknown": 2})
    check(reply["status"] == "error", "unknown parameters are accepted: %s" % reply)
""")

make("c08-negative-id", "C08",
 "A request with a negative id.",
 "It is refused as if it had no id.",
 [(L + "server/jsonrpcserver.cpp", """    int commandId = message.value("id").toInt(&success);
    if (!success) {
""", """    int commandId = message.value("id").toInt(&success);
    if (!success || commandId < 0) {
""")],
 """
with Proxy() as proxy:
    a = Peer.unix(proxy)
    a.send(a.request("RemoteProxy.Hello", request_id=-5))
    reply = json.loads(a.line())
    check(reply["id"] == -5 and reply["status"] == "success", "the reply is %s" % reply)
""")

make("c21-counted", "C21",
 "TCP peers without a TLS handshake while the monitor asks.",
 "They are counted as connections.",
 [(L + "server/tcpsocketserver.cpp", """    return m_clientList.count();
""", """    return m_server ? m_server->findChildren<QSslSocket *>().count() : 0;
""")],
 """
with Proxy(ssl="true") as proxy:
    peers = [Peer.tcp(proxy) for i in range(3)]
    time.sleep(0.5)
    counts = proxy.statistics()["transports"]
    check(counts["TCP"] == 0, "connections without TLS are counted: %s" % counts)
""")
