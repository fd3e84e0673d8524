import sys; sys.path.insert(0, "/verif/tools/seeding")
from mk import make
TS = "libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp"
TSH = "libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h"
TC = "libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp"

make("c04-stale-client-uuid", "C04",
 "A tunnel client whose server went away first (so the proxy drops the client itself); the UUID of that client is used again afterwards.",
 "A client UUID cannot be used again once its connection is gone: the registry keeps the entry of clients which were disconnected because of their server.",
 [(TS, "m_tunnelProxyClientConnections.take(tunnelProxyClient->uuid());\n", "m_tunnelProxyClientConnections.value(tunnelProxyClient->uuid());\n"),
  (TS, "                serverConnection->unregisterClientConnection(clientConnection);\n                m_jsonRpcServer", "                serverConnection->unregisterClientConnection(clientConnection);\n                m_tunnelProxyClientConnections.remove(tunnelProxyClient->uuid());\n                m_jsonRpcServer")],
 '''
with Proxy() as proxy:
    su, cu = new_uuid(), new_uuid()
    for attempt in range(3):
        server, client = Peer.tcp(proxy), Peer.tcp(proxy)
        check(register_server(server, su) == OK, "server registration")
        result = register_client(client, cu, su)
        check(result == OK, "registration %d of the client with the same UUID: %s" % (attempt, result))
        server.close()
        check(client.wait_closed(), "client not disconnected")
        client.close()
        time.sleep(0.3)
''')

make("c08-third-request", "C08",
 "Three or more newline-separated requests which arrive in one chunk.",
 "Only the first of several requests in one chunk is split off; the rest is parsed as one document, gets one error reply and the connection is closed.",
 [(TC, '''        while (splitIndex > -1) {
            packets.append(m_dataBuffer.left(splitIndex + 1));
            m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
            splitIndex = m_dataBuffer.indexOf("}\\n{");
        }
''', '''        if (splitIndex > -1) {
            packets.append(m_dataBuffer.left(splitIndex + 1));
            m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
        }
''')],
 '''
with Proxy() as proxy:
    peer = Peer.tcp(proxy)
    peer.send(b"".join(peer.request("RemoteProxy.Hello", request_id=i) for i in range(10, 15)))
    for i in range(10, 15):
        line = peer.line()
        check(line is not None, "no reply to %d" % i)
        reply = json.loads(line)
        check(reply["id"] == i and reply["status"] == "success", "reply to %d: %s" % (i, reply))
''')

make("c11-lazy-restart", "C11",
 "A registered server which sends something less than 30 seconds after its previous data and is then silent for more than 30, but less than 60 seconds.",
 "The inactivity timer of a server is not restarted by data which arrives in its first half, so a server is dropped although it sent data within the last 60 seconds.",
 [(TC, '''    connect(this, &TransportClient::rxDataCountChanged, this, [this](){
        m_inactiveTimer->start();
    });
''', '''    connect(this, &TransportClient::rxDataCountChanged, this, [this](){
        // No need to restart the timer for each chunk of data
        if (m_inactiveTimer->remainingTime() < m_inactiveTimer->interval() / 2)
            m_inactiveTimer->start();
    });
''')],
 '''
with Proxy() as proxy:
    server = Peer.tcp(proxy)
    check(register_server(server, new_uuid()) == OK, "registration")
    time.sleep(20)
    check(server.call_frame("TunnelProxy.Ping", {"timestamp": 1}) is not None, "ping")
    # 50 seconds of silence are fine
    check(not server.wait_closed(50), "the server was dropped within a minute of its data")
    check(server.call_frame("TunnelProxy.Ping", {"timestamp": 2}) is not None, "ping")
''')

make("c04-cross-uuid", "C04",
 "A client which registers with the UUID of a registered server other than the one it asks for.",
 "The UUID of a live server is accepted as the UUID of a client of another server.",
 [(TS, "    if (m_tunnelProxyServerConnections.contains(clientUuid)) {", "    if (clientUuid == serverUuid && m_tunnelProxyServerConnections.contains(serverUuid)) {")],
 '''
with Proxy() as proxy:
    s1, s2, client = Peer.tcp(proxy), Peer.tcp(proxy), Peer.tcp(proxy)
    u1, u2 = new_uuid(), new_uuid()
    check(register_server(s1, u1) == OK and register_server(s2, u2) == OK, "server registration")
    result = register_client(client, u1, u2)
    check(result == "TunnelProxyErrorAlreadyRegistered", "client with the UUID of another server: " + str(result))
    check(client.wait_closed(), "the client was not closed")
''')

make("c01-escape-fast-path", "C01",
 "A payload which contains the ESC byte 0xDB, but no END byte 0xC0.",
 "Data without an END byte is framed without escaping, an ESC byte in it corrupts or drops the frame.",
 [("common/slipdataprocessor.cpp", '''    QByteArray serializedData;
#if QT''', '''    // Nothing to escape, no need to process each byte
    if (!data.contains(static_cast<char>(ProtocolByteEnd)))
        return data + static_cast<char>(ProtocolByteEnd);

    QByteArray serializedData;
#if QT''')],
 '''
with Proxy() as proxy:
    su = new_uuid()
    server, client = Peer.tcp(proxy), Peer.tcp(proxy)
    check(register_server(server, su) == OK, "server registration")
    check(register_client(client, new_uuid(), su) == OK, "client registration")
    address = connected_address(server)
    for payload in (b"abc", b"\\xc0\\xdb", b"a\\xdbb", b"\\xdb\\xdc\\xdb\\xdd"):
        client.send(payload)
        got = b""
        while len(got) < len(payload):
            frame = server.frame(5)
            check(frame is not None and frame[0] == address, "client data %r: frame %r" % (payload, frame))
            got += frame[1]
        check(got == payload, "sent %r, received %r" % (payload, got))
''')

make("c14-trimmed", "C14",
 "A WebSocket client whose text starts or ends with white space.",
 "White space around the text messages of WebSocket clients is lost.",
 [("libnymea-remoteproxy/server/websocketserver.cpp", "message.toUtf8());", "message.trimmed().toUtf8());")],
 '''
with Proxy() as proxy:
    su = new_uuid()
    server, client = Peer.tcp(proxy), WsPeer(proxy)
    check(register_server(server, su) == OK, "server registration")
    check(register_client(client, new_uuid(), su) == OK, "client registration")
    connected_address(server)
    text = "  plain, \\u00e4\\u20ac \\n\\n".encode()
    client.send(text)
    frame = server.frame()
    check(frame is not None and frame[1] == text, "sent %r, received %r" % (text, frame))
''')

make("c22-skip-rest", "C22",
 "A server whose frame for an unknown address arrives in the same chunk as further frames.",
 "The frames behind a frame for an unknown address are dropped if they arrived with it.",
 [(TS, '''client connection which has not been registered to the server.";
                        continue;''', '''client connection which has not been registered to the server.";
                        return;''')],
 '''
with Proxy() as proxy:
    su = new_uuid()
    server, client = Peer.tcp(proxy), Peer.tcp(proxy)
    check(register_server(server, su) == OK, "server registration")
    check(register_client(client, new_uuid(), su) == OK, "client registration")
    address = connected_address(server)
    server.send(slip(address, b"one ") + slip(address + 77, b"lost ") + slip(address, b"two ") + slip(address, b"three"))
    expected = b"one two three"
    client.wait(lambda p: len(p.data) >= len(expected), 5)
    check(client.data == expected, "received %r instead of %r" % (client.data, expected))
''')

make("c13-troughput-dropped", "C13",
 "A server which sends frames for addresses without a client.",
 "Data which was dropped because nobody has its address is counted as tunnelled.",
 [(TS, '''                    // Get the client and send the data to the client
''', '''                    m_troughputCounter += frame.data.count();

                    // Get the client and send the data to the client
'''), (TS, '''                    clientConnection->transportClient()->sendData(frame.data);
                    m_troughputCounter += frame.data.count();
''', '''                    clientConnection->transportClient()->sendData(frame.data);
''')],
 '''
with Proxy() as proxy:
    server, client = Peer.tcp(proxy), Peer.tcp(proxy)
    su = new_uuid()
    check(register_server(server, su) == OK, "server registration")
    check(register_client(client, new_uuid(), su) == OK, "client registration")
    address = connected_address(server)
    def seen(addr, seconds):
        end, best = time.time() + seconds, 0
        last = 0
        while time.time() < end:
            if time.time() - last > 0.4:
                last = time.time()
                server.send(slip(addr, b"x" * 5000))
            best = max(best, proxy.statistics()["troughput"])
            client.quiet(0.05)
        return best
    check(seen(address, 4) >= 5000, "no throughput although data was tunnelled")
    time.sleep(3)
    lost = seen(address + 9, 5)
    check(lost == 0, "throughput %s without any tunnelled data" % lost)
''')

make("c05-address-zero", "C05",
 "More than 65535 client registrations at one server connection.",
 "After the 16-bit address space has been used up once, a client gets the reserved address 0x0000 and its data looks like JSON-RPC data of the proxy.",
 [("libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp", "m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF", "m_clientConnectionsAddresses.contains(address) || address == 0xFFFF")],
 '''
with Proxy() as proxy:
    # The traffic of the log is not of interest here
    server = Peer.unix(proxy)
    su = new_uuid()
    check(register_server(server, su) == OK, "server registration")
    base = uuid.uuid4().int
    count = 0
    began = time.time()
    # keep a few alive, the others come and go in batches
    while count < 65600:
        batch = []
        for i in range(100):
            count += 1
            c = Peer.unix(proxy)
            c.send(('{"id":1,"method":"TunnelProxy.RegisterClient","params":{"clientName":"c","clientUuid":"{%s}","serverUuid":"%s"}}\\n'
                    % (uuid.UUID(int=(base + count) % (1 << 128)), su)).encode())
            batch.append(c)
        seen = 0
        while seen < 100:
            frame = server.frame()
            check(frame is not None, "no notification")
            message = json.loads(frame[1])
            if message["notification"].endswith("ClientConnected"):
                seen += 1
                a = message["params"]["socketAddress"]
                check(0 < a < 0xffff, "client %d got the address %d" % (count, a))
        for c in batch:
            c.close()
        check(time.time() - began < 260, "too slow")
''')

make("c10-notification-as-method", "C10",
 "A request whose method is the name of a notification, such as TunnelProxy.ClientConnected.",
 "Names of notifications are accepted as methods: the request gets no reply at all and the connection stays open.",
 [("libnymea-remoteproxy/jsonrpc/jsonhandler.cpp", "return m_descriptions.contains(methodName) && m_params.contains(methodName) && m_returns.contains(methodName);", "return m_descriptions.contains(methodName) && m_params.contains(methodName);")],
 '''
with Proxy() as proxy:
    peer = Peer.tcp(proxy)
    notifications = peer.call("RemoteProxy.Introspect")["params"]["notifications"]
    check(notifications, "no notifications")
    for name, description in notifications.items():
        peer = Peer.tcp(proxy)
        params = {}
        for key, kind in description["params"].items():
            params[key] = {"String": "text", "Uuid": new_uuid(), "Bool": True}.get(kind, 1)
        reply = peer.call(name, params)
        check(reply is not None, "no reply to " + name)
        check(reply["status"] == "error", "reply to %s: %s" % (name, reply))
        check(peer.wait_closed(), "not closed after " + name)
''')

make("c06-silent-disconnect", "C06",
 "A server which disconnects one of its clients with DisconnectClient.",
 "The server gets no ClientDisconnected notification for clients which it disconnected itself.",
 [(TS, '''    clientConnection->transportClient()->killConnection("Server requested disconnect.");
''', '''    // Make sure no more data will be routed to this client
    serverConnection->unregisterClientConnection(clientConnection);
    clientConnection->transportClient()->killConnection("Server requested disconnect.");
''')],
 '''
with Proxy() as proxy:
    server, client = Peer.tcp(proxy), WsPeer(proxy)
    su = new_uuid()
    check(register_server(server, su) == OK, "server registration")
    check(register_client(client, new_uuid(), su) == OK, "client registration")
    address = connected_address(server)
    server.send(slip(0, server.request("TunnelProxy.DisconnectClient", {"socketAddress": address})))
    seen = []
    while True:
        frame = server.frame(3)
        if frame is None:
            break
        seen.append(json.loads(frame[1]))
    gone = [m for m in seen if m.get("notification") == "TunnelProxy.ClientDisconnected"]
    check(len(gone) == 1 and gone[0]["params"]["socketAddress"] == address, "messages: %s" % seen)
''')

make("c03-last-target-cache", "C03",
 "Two servers which send to clients with the same socket address in turns.",
 "The client which received the last frame is remembered by its address only, so a frame of another server with the same address reaches a foreign client.",
 [(TS, '''                    TunnelProxyClientConnection *clientConnection = serverConnection->getClientConnection(frame.socketAddress);
                    if (!clientConnection) {
                        qCWarning(dcTunnelProxyServer()) << "The server''', '''                    TunnelProxyClientConnection *clientConnection = m_lastTarget;
                    if (!clientConnection || clientConnection->socketAddress() != frame.socketAddress) {
                        clientConnection = serverConnection->getClientConnection(frame.socketAddress);
                        m_lastTarget = clientConnection;
                    }
                    if (!clientConnection) {
                        qCWarning(dcTunnelProxyServer()) << "The server'''),
  (TSH, "    QHash<QUuid, TunnelProxyClient *> m_proxyClients;", "    QPointer<TunnelProxyClientConnection> m_lastTarget;\n    QHash<QUuid, TunnelProxyClient *> m_proxyClients;"),
  (TSH, "#include <QObject>\n", "#include <QObject>\n#include <QPointer>\n"),
 ],
 '''
with Proxy() as proxy:
    pairs = []
    for i in range(2):
        server, client = Peer.tcp(proxy), Peer.unix(proxy)
        su = new_uuid()
        check(register_server(server, su) == OK, "server registration")
        check(register_client(client, new_uuid(), su) == OK, "client registration")
        pairs.append((server, client, connected_address(server)))
    expected = [b"", b""]
    for n in range(6):
        server, client, address = pairs[n % 2]
        text = b"%d for %d;" % (n, n % 2)
        expected[n % 2] += text
        server.send(slip(address, text))
        time.sleep(0.1)
    for i in range(2):
        client = pairs[i][1]
        client.quiet(0.5)
        check(client.data == expected[i], "client %d received %r instead of %r" % (i, client.data, expected[i]))
''')
