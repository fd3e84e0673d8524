#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
L = "libnymea-remoteproxy/"
C = "libnymea-remoteproxyclient/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "SLIP framing is lossless and its decoder is total",
 "Encoding any byte string with SLIP and decoding it gives back exactly that string, the encoded form contains the END byte only as its last byte, and building then parsing an addressed frame returns the same 16-bit big-endian address and the same payload. Decoding an arbitrary byte string never crashes: it yields what RFC 1055 unescaping yields up to the first END byte, or a null result when an escape byte before that is followed by a byte that is not one of the two transposed bytes.",
 ["inputs"], "All byte strings (including empty, all-escape, all-END and embedded NUL), all 65536 addresses, all arbitrary inputs to the decoder.",
 "The repository's tests only frame short printable payloads; none contains 0xC0, 0xDB, 0xDC or 0xDD, and the decoder is never fed malformed input.",
 ["common/slipdataprocessor.cpp", "common/slipdataprocessor.h"],
 [("escape / unescape loops", "common/slipdataprocessor.cpp serializeData, deserializeData"), ("address prefix", "common/slipdataprocessor.cpp buildFrame, parseFrame")],
 ["return values of the four codec functions"])

prop("C02", "The tunnel is byte-transparent and ordered in both directions",
 "Every byte a registered client sends arrives at its server under that client's socket address, and every payload a server addresses to a connected client arrives at that client, unmodified, in order and exactly once, whatever the bytes are and however the stream is cut into chunks or frames. Nothing is delivered that was not sent, also when a reader is slow and large amounts of data queue up.",
 ["inputs", "schedules", "histories"], "All payload bytes and sizes, all chunkings of both streams (also mid-escape, mid-address, several frames per chunk), any number of clients and servers on the byte-stream transports, any interleaving of the two directions.",
 "Tests send a handful of fixed printable strings through one or two clients, one write per message; no payload contains SLIP control bytes and no frame is ever fragmented.",
 [L+"tunnelproxy/tunnelproxyserver.cpp", L+"tunnelproxy/tunnelproxyclient.cpp", "common/slipdataprocessor.cpp", L+"server/tcpsocketserver.cpp", L+"server/unixsocketserver.cpp"],
 [("client data wrapped in addressed SLIP frame", L+"tunnelproxy/tunnelproxyserver.cpp onClientDataAvailable"), ("SLIP reassembly of server stream", L+"tunnelproxy/tunnelproxyclient.cpp processData")],
 ["bytes read by the tunnel client socket", "SLIP frames read by the tunnel server socket"],
 [("reassembly buffer", "partial frame received from a server", L+"server/transportclient.h m_dataBuffer")])

prop("C03", "Tunnel data reaches only the addressed peer",
 "Data sent by a client is seen only by the server it registered with, and data a server addresses to a socket address is seen only by that server's client with that address; no other connection receives a single byte of it. Frames for addresses with no connected client are dropped without any effect on any connection, and an unregistered connection never receives tunnel data.",
 ["inputs", "histories"], "All histories of connects, registrations, data in both directions and disconnects over several servers and clients, including equal addresses under different servers, addresses of departed clients and every unknown address.",
 "Tests run one server with at most two clients and never check that third parties stay silent or that stale or foreign addresses are dropped.",
 [L+"tunnelproxy/tunnelproxyserver.cpp", L+"tunnelproxy/tunnelproxyserverconnection.cpp", L+"tunnelproxy/tunnelproxyclientconnection.cpp"],
 [("per-server address table", L+"tunnelproxy/tunnelproxyserverconnection.cpp getClientConnection"), ("client to server binding", L+"tunnelproxy/tunnelproxyclientconnection.cpp setServerConnection")],
 ["bytes received by every connected socket"])

prop("C04", "Registration follows the rendezvous rules and is all-or-nothing",
 "RegisterServer succeeds exactly when the connection is not registered yet, the UUID is valid and non-null and no live connection holds it in either role; RegisterClient additionally needs a live server with the requested UUID, and UUIDs are compared by value, not by spelling. A refused registration is answered with an error naming a rule that was broken, grants no tunnel access, is followed by closing that connection when a UUID is taken, the connection is already registered or the server is unknown, and changes nothing for anybody else; a UUID can be used again once its connection is gone.",
 ["histories", "inputs"], "All sequences of registrations, re-registrations, cross-role reuse and disconnects over many connections, UUID spellings (with or without braces, either case, null, garbage) and names.",
 "Tests check isolated single registrations and two duplicates; the rules quantify over the whole history of the registry.",
 [L+"tunnelproxy/tunnelproxyserver.cpp", L+"jsonrpc/tunnelproxyhandler.cpp"],
 [("rule cascade", L+"tunnelproxy/tunnelproxyserver.cpp registerServer, registerClient"), ("null UUID rejection", L+"jsonrpc/tunnelproxyhandler.cpp"), ("release on disconnect", L+"tunnelproxy/tunnelproxyserver.cpp onClientDisconnected")],
 ["registration replies", "connection closed or open", "monitor statistics"],
 [("UUID registries", "live server and client registrations", L+"tunnelproxy/tunnelproxyserver.h")])

prop("C05", "Socket addresses are unique per server and never reserved values",
 "At any moment the clients connected to one server have pairwise different socket addresses, none of them 0x0000 or 0xFFFF, for as long as the server stays connected and however many clients have come and gone, also after the 16-bit address space has been used up once or more. Data sent to an address reaches the client announced with it.",
 ["histories"], "All histories of client registrations and departures on one server, in particular long ones that wrap the 16-bit counter while many low addresses are still in use.",
 "Tests connect at most two clients to a server; wrapping needs more than 65000 registrations.",
 [L+"tunnelproxy/tunnelproxyserverconnection.cpp", L+"tunnelproxy/tunnelproxyserverconnection.h"],
 [("free address search", L+"tunnelproxy/tunnelproxyserverconnection.cpp getFreeAddress")],
 ["socketAddress in ClientConnected notifications", "routing of frames"],
 [("address counter", "last address tried", L+"tunnelproxy/tunnelproxyserverconnection.h")])

prop("C06", "Servers are told about their clients exactly once, in order, correctly",
 "For every successful client registration the owning server, and nobody else, receives exactly one ClientConnected notification carrying that client's name, UUID, peer address and socket address, before any data of that client; when a registered client goes away for whatever reason while the server stays, the server receives exactly one ClientDisconnected with that address, after the client's data. Refused registrations and unregistered connections cause no notification.",
 ["histories", "inputs"], "All histories of client arrivals, data and departures (closed by the client, by the server's DisconnectClient, by the proxy), all client names.",
 "Tests observe the notifications of one or two clients through the client library only, with fixed names, and never check for duplicates, third parties or ordering against data.",
 [L+"tunnelproxy/tunnelproxyserver.cpp", L+"server/jsonrpcserver.cpp"],
 [("ClientConnected on registration", L+"tunnelproxy/tunnelproxyserver.cpp registerClient"), ("ClientDisconnected on departure", L+"tunnelproxy/tunnelproxyserver.cpp onClientDisconnected")],
 ["control frames (address 0x0000) received by every server"])

prop("C07", "Disconnects cascade to exactly the right connections",
 "When a server's connection ends, all clients tunnelled to it are disconnected and no other connection is; when a client ends, its server and all other connections stay, with their tunnels. DisconnectClient closes exactly the requesting server's client with exactly that address and nothing else, and answers with an error and closes nothing when no client of that server has that address, including addresses outside the 16-bit range.",
 ["histories", "inputs"], "All topologies and orders of disconnects (orderly, abrupt reset, requested by the server) and all requested address values.",
 "Tests cover one server with one or two clients and valid addresses only.",
 [L+"tunnelproxy/tunnelproxyserver.cpp", L+"jsonrpc/tunnelproxyhandler.cpp"],
 [("cascade", L+"tunnelproxy/tunnelproxyserver.cpp onClientDisconnected"), ("DisconnectClient lookup", L+"tunnelproxy/tunnelproxyserver.cpp disconnectClient")],
 ["which sockets see end-of-stream", "DisconnectClient replies"])

prop("C08", "Every JSON-RPC request is answered exactly once, however it is chunked",
 "Each well-formed request receives exactly one reply carrying its integer id, in request order, with the documented content, terminated by a newline; this does not depend on how the transport splits or merges the requests (boundaries inside objects, keys, numbers or UTF-8 sequences, several newline-separated requests in one chunk) nor on whitespace or key order. For registered servers the same holds for requests sent in control frames, whose replies come back in control frames.",
 ["inputs", "schedules"], "All sequences of valid requests, ids in the 32-bit range, all JSON layouts, all chunkings.",
 "Tests send one compact request per write and read one reply.",
 [L+"server/jsonrpcserver.cpp", L+"tunnelproxy/tunnelproxyclient.cpp"],
 [("packet reassembly", L+"tunnelproxy/tunnelproxyclient.cpp processData"), ("dispatch and reply", L+"server/jsonrpcserver.cpp processDataPacket, sendResponse")],
 ["bytes read by the requesting socket"])

prop("C09", "Invalid input is rejected on its own connection and hurts nobody else",
 "A complete message (a control frame, or plain input up to a closing brace that leaves no bracket open) that is not valid JSON, lacks an integer id, names an unknown namespace or method, or carries invalid parameters gets one error reply (with the request's id if it has one, else -1) and its connection is closed; requests sent right behind one that ends its connection have no effect and get no reply; no input on any transport crashes or stalls the proxy. All other connections, their registrations and the data in their tunnels are unaffected.",
 ["inputs", "histories"], "All byte strings as input to unregistered connections and, in control frames, to registered servers; mutations of valid requests; bystander tunnels running at the same time.",
 "Tests try six fixed malformed requests on an otherwise idle proxy.",
 [L+"server/jsonrpcserver.cpp", L+"jsonrpc/jsontypes.cpp", L+"jsonrpc/jsonhandler.cpp", L+"server/websocketserver.cpp"],
 [("parse and validation errors", L+"server/jsonrpcserver.cpp processDataPacket"), ("parameter templates", L+"jsonrpc/jsontypes.cpp validateMap")],
 ["error replies and end-of-stream of the offending socket", "continued service of bystanders"])

prop("C10", "The introspected API is the API that is enforced",
 "Every method that Introspect advertises can be called with parameters matching its advertised template, and its reply matches the advertised return template and the advertised enum values; every request to it with a required parameter missing, with an unknown parameter, or with a parameter of a JSON type that cannot be converted to the advertised type (an object or array for any basic type, a number or boolean for a Uuid) is refused with an error. Notifications carry exactly the advertised parameters, and methods that are not advertised are refused.",
 ["inputs"], "All advertised methods, all parameter maps generated from and around the advertised templates, all connection states.",
 "Tests check that Introspect answers and a few hand-written parameter maps.",
 [L+"jsonrpc/jsontypes.cpp", L+"jsonrpc/jsonhandler.cpp", L+"jsonrpc/tunnelproxyhandler.cpp", L+"server/jsonrpcserver.cpp"],
 [("template validation", L+"jsonrpc/jsontypes.cpp validateMap, validateProperty"), ("introspection", L+"jsonrpc/jsonhandler.cpp introspect")],
 ["Introspect reply", "replies to generated calls", "notifications"])

prop("C11", "Idle connections are reaped on time, active registered ones never",
 "A connection that has not registered successfully within the configured inactivity timeout after connecting is closed by the proxy then, and not earlier, whatever else it sent meanwhile. A registered server is closed when, and only when, it has sent nothing for 60 seconds, and a registered client is never closed for inactivity. This also removes peers which have stopped reading what the proxy sends to them, at the latest after twice the time, while a slow reader whose server left still gets every byte.",
 ["schedules", "histories", "configurations"], "All configured timeouts, all schedules of requests, registrations, pings, tunnel data and silence over minutes of (simulated) time and several connections.",
 "Tests wait for one unregistered socket to time out once; 60 s server supervision and the never-reaped client are not reachable in a unit test's time.",
 [L+"tunnelproxy/tunnelproxyclient.cpp"],
 [("inactivity timer", L+"tunnelproxy/tunnelproxyclient.cpp constructor, activateClient")],
 ["time of end-of-stream on every socket, in simulated time"])

prop("C12", "Unregistered peers cannot make the proxy buffer more than 10 KiB",
 "An unregistered connection whose incomplete request data exceeds 10 KiB is closed, and nothing it sent is executed or answered with success; a connection whose incomplete data stays at or below 10 KiB is not closed for that reason and its request is answered once complete. The limit applies per connection and is not consumed by requests that have already been answered.",
 ["inputs", "schedules"], "All sizes around the limit, all chunkings, interleaved completed requests, several connections at once.",
 "One test sends one oversized blob; nothing probes the boundary, chunk by chunk growth, or accumulation over answered requests.",
 [L+"server/jsonrpcserver.cpp", L+"server/transportclient.cpp"],
 [("buffer size check", L+"server/jsonrpcserver.cpp processData")],
 ["end-of-stream or reply on the sending socket"])

prop("C13", "Monitor statistics are exact",
 "A refresh request on the monitor socket returns numbers that equal the true state at that moment: total connections, registered servers and clients, connections per transport, for every listed tunnel an id of its own, the right name, UUID, address, creation time and received and sent byte counts, each client listed under its own server only, and as throughput the payload bytes tunnelled during the last completed second. Servers without clients are listed only when printAll is requested; an unintelligible monitor request closes only that monitor connection and a monitor never disturbs tunnels.",
 ["histories", "inputs"], "All histories of connects, registrations, traffic and disconnects on all transports, with monitor queries at any point; any bytes on the monitor socket.",
 "One test fetches monitor data and does not look at it (\"TODO: verify monitor data\").",
 [L+"tunnelproxy/tunnelproxyserver.cpp", L+"server/monitorserver.cpp", L+"engine.cpp", L+"server/transportclient.cpp"],
 [("statistics map", L+"tunnelproxy/tunnelproxyserver.cpp currentStatistics"), ("byte counters", L+"server/transportclient.cpp addRxDataCount, addTxDataCount"), ("throughput tick", L+"engine.cpp onTimerTick")],
 ["JSON read from the monitor socket"])

prop("C14", "All transports offer the same service",
 "The same session of requests, registrations and text payloads gives the same replies, notifications, deliveries and disconnects on the TCP, WebSocket and Unix-socket transports, and tunnels work between any mix of them (WebSocket peers as clients exchanging UTF-8 text). A WebSocket peer sending a binary message is disconnected without affecting others, and messages split into WebSocket continuation frames or interleaved with pings are handled like unsplit ones.",
 ["inputs", "configurations", "histories"], "All sessions, every assignment of transports to the connections, WebSocket fragmentation and control frames.",
 "Tests run most scenarios on one transport with its default framing.",
 [L+"server/tcpsocketserver.cpp", L+"server/websocketserver.cpp", L+"server/unixsocketserver.cpp", L+"server/transportinterface.h"],
 [("transport interface", L+"server/transportinterface.h"), ("per transport client lists", L+"server/websocketserver.cpp, tcpsocketserver.cpp, unixsocketserver.cpp")],
 ["peer-visible traces per transport"])

prop("C15", "Stopping and restarting the proxy is clean from every state",
 "Stopping the engine, whatever connections, registrations, half-received requests or unsent data exist, closes every connection and every listening socket and reports not running; starting it again on the same endpoints works and begins with an empty registry. One transport that cannot bind its endpoint does not prevent the others from serving, and no start/stop sequence crashes or touches freed memory.",
 ["histories", "fault_sequences"], "All sequences of start, stop, restart and destroy interleaved with connections in all states, including stalled readers and blocked ports.",
 "Tests start and stop once around a scenario with well-behaved peers.",
 [L+"engine.cpp", L+"server/tcpsocketserver.cpp", L+"server/websocketserver.cpp", L+"server/unixsocketserver.cpp", L+"server/monitorserver.cpp"],
 [("engine clean up", L+"engine.cpp start, stop, clean"), ("transport stop", L+"server/*server.cpp stopServer")],
 ["end-of-stream on all sockets", "connection refused after stop", "sanitizer reports"])

prop("C16", "The configuration file is what the proxy runs with",
 "Loading a configuration file yields for every documented key the value in the file, and the built-in default for every absent key, independent of what was loaded before; loading fails exactly when the file is missing or a configured certificate, key or chain file cannot be opened. The engine then listens on exactly the configured endpoints and reports the configured server name.",
 ["configurations", "inputs"], "All combinations of present and absent keys, value ranges, section orders and comments, and readable or missing certificate files.",
 "Tests load five fixed files and only check the boolean result.",
 [L+"proxyconfiguration.cpp", L+"engine.cpp", "server/main.cpp"],
 [("settings to fields", L+"proxyconfiguration.cpp loadConfiguration"), ("endpoint setup", L+"engine.cpp start")],
 ["configuration getters", "listening sockets", "Hello reply"])

prop("C17", "The client library connects to a server and passes data unaltered",
 "For every proxy that follows the protocol, a remote connection says Hello, registers, reports being connected exactly when registration succeeded, and from then on delivers exactly the bytes the proxy sends and sends exactly the bytes the user writes (over WebSocket: UTF-8 text), however the proxy's answers and data are split or merged by the transport. If the proxy answers with an error or closes at any point, it reports disconnected, delivers nothing more, and can be used to connect again. A proxy which cannot be reached is reported as an error, and over TLS nothing is sent to a proxy whose certificate cannot be verified unless the user ignores those errors.",
 ["inputs", "schedules", "fault_sequences"], "All proxy behaviours allowed by the protocol: any chunking including tunnel data right behind the registration reply, any error answer, a close at any point, several connect and disconnect cycles, TCP and WebSocket.",
 "Tests run the library against the real proxy on an idle loopback, where every message arrives alone and unsplit.",
 [C+"tunnelproxy/tunnelproxyremoteconnection.cpp", C+"proxyjsonrpcclient.cpp", C+"tcpsocketconnection.cpp", C+"websocketconnection.cpp"],
 [("handshake state machine", C+"tunnelproxy/tunnelproxyremoteconnection.cpp"), ("reply reassembly", C+"proxyjsonrpcclient.cpp processData")],
 ["signals and state of the remote connection", "bytes read by a scripted proxy"])

prop("C18", "The client library's tunnel server tracks clients and data exactly",
 "For every proxy that follows the protocol, a tunnel server object connected over TCP becomes running exactly when registered, announces one socket object per announced client with the announced name, UUID, peer address and socket address, delivers each client's bytes only on its socket, unaltered and in order however frames are chunked, sends written data as frames with the right address, and reports each disconnect once. When the proxy connection is lost every socket is reported disconnected, and while enabled the server reconnects by itself; while running it never stays silent for much longer than 30 seconds (it sends a ping), because the proxy drops silent servers. Its requests can be told apart: none has the id of another one which is not answered yet. Over TLS nothing is sent to a proxy whose certificate cannot be verified unless the user ignores those errors.",
 ["inputs", "schedules", "fault_sequences", "histories"], "All proxy behaviours allowed by the protocol, any chunking including frames right behind the registration reply, malformed frames, notifications arriving while requests are pending, connection loss at any point, minutes of (simulated) time.",
 "Tests run against the real proxy with one or two clients, printable data, no losses and no waiting for keep-alive.",
 [C+"tunnelproxy/tunnelproxysocketserver.cpp", C+"tunnelproxy/tunnelproxysocket.cpp", C+"proxyjsonrpcclient.cpp"],
 [("frame dispatch", C+"tunnelproxy/tunnelproxysocketserver.cpp onConnectionDataAvailable"), ("reconnect and keep-alive timers", C+"tunnelproxy/tunnelproxysocketserver.cpp setupTimers")],
 ["signals and state of the server and socket objects", "bytes read by a scripted proxy"])

prop("C19", "Library client, proxy and library server together form a faithful tunnel",
 "With the library's server and clients connected through a running proxy, every byte written by a client comes out of the matching server-side socket and vice versa, in order, exactly once and on no other socket, and connects and disconnects on either side are reported on the other side exactly once. This holds for any number of servers and clients, any data and any interleaving of writes, connects and disconnects.",
 ["histories", "inputs"], "All interleavings of operations on several library servers and clients over one proxy instance, all payload bytes.",
 "Tests exchange two fixed strings between one server and one or two clients.",
 [L+"tunnelproxy/tunnelproxyserver.cpp", C+"tunnelproxy/tunnelproxysocketserver.cpp", C+"tunnelproxy/tunnelproxyremoteconnection.cpp", C+"tunnelproxy/tunnelproxysocket.cpp"],
 [("proxy and client library protocol", "docs/remote-connection-basic-flow.txt")],
 ["signals of the library objects on both ends"])

prop("C20", "The monitor tool shows what the proxy reports",
 "The non-interactive monitor prints exactly the statistics the proxy sent (server name and versions, totals, per-transport counts, and one row per server and per client with that row's own UUID, address, name and byte counts), and in JSON mode the same document, however the report is split into chunks by the socket. It requests inactive servers exactly when asked to, ends with success behind its report, and ends without success if the proxy goes away before the report. The interactive view shows the latest report the same way, one row per server and client.",
 ["inputs", "schedules", "histories"], "All reports of any size and content, all chunkings of the report, losses at any byte, sequences of reports in the interactive view.",
 "The monitor tool has no tests.",
 ["monitor/monitorclient.cpp", "monitor/noninteractivemonitor.cpp", "monitor/terminalwindow.cpp", "monitor/monitor.cpp", "monitor/utils.h"],
 [("report reassembly", "monitor/monitorclient.cpp onReadyRead"), ("row formatting", "monitor/noninteractivemonitor.cpp onConnected")],
 ["standard output of the monitor tool", "bytes read by a scripted monitor endpoint"])

prop("C21", "With TLS enabled nothing is served to a peer that has not encrypted",
 "When TLS is enabled, a TCP or WebSocket peer that has not completed a TLS handshake is never treated as a client: it receives no JSON-RPC answer, cannot register, is not counted, cannot disturb others, and on the TCP transport is disconnected after 5 seconds without a handshake. A peer that completes the handshake gets the full, byte-transparent service.",
 ["inputs", "configurations", "schedules"], "All byte strings sent in clear, truncated or corrupted handshakes, aborts at any point of the handshake, mixed with correct TLS peers with arbitrary payloads and chunking.",
 "Tests only use correct TLS peers with short payloads.",
 [L+"server/tcpsocketserver.cpp", L+"server/websocketserver.cpp"],
 [("TLS gate on connect, data and disconnect", L+"server/tcpsocketserver.cpp incomingConnection"), ("handshake timer", L+"server/tcpsocketserver.cpp startWaitingForEncrypted")],
 ["bytes received by plain and TLS peers", "monitor statistics"])

prop("C22", "A bad frame from a server damages only itself",
 "Whatever a registered server sends between two END bytes (an invalid escape sequence, an empty frame, a frame shorter than an address, an unknown address), every well-formed frame after it is delivered exactly as if the bad one had not been sent, and the connection and the other tunnels stay up. A malformed control request inside a well-formed control frame is answered with an error like on any other connection.",
 ["inputs", "fault_sequences"], "All sequences of good and bad frames, all bad contents, all chunkings.",
 "Tests only send well-formed frames.",
 [L+"tunnelproxy/tunnelproxyclient.cpp", L+"tunnelproxy/tunnelproxyserver.cpp", "common/slipdataprocessor.cpp"],
 [("frame reassembly and error recovery", L+"tunnelproxy/tunnelproxyclient.cpp processData")],
 ["bytes received by the clients of that server", "control frames received by it"])

prop("C23", "Deferred replies are delivered once or time out, and never outlive the client",
 "A JSON-RPC method that answers asynchronously has its reply sent exactly once with the request's id, to the requesting client only; if it does not finish within the configured timeout the client gets one error reply with that id and is disconnected, and if it finishes unsuccessfully the client gets the reply and is disconnected. If the client goes away first, nothing is sent and nothing crashes, however many replies are pending and in whatever order they finish.",
 ["histories", "schedules"], "All interleavings of several clients issuing several deferred requests, finishing, failing, timing out and disconnecting.",
 "No shipped method answers asynchronously, so no test reaches this part of the server library.",
 [L+"server/jsonrpcserver.cpp", L+"jsonrpc/jsonreply.cpp"],
 [("pending reply table", L+"server/jsonrpcserver.cpp asyncReplyFinished, unregisterClient"), ("reply timeout", L+"jsonrpc/jsonreply.cpp startWait")],
 ["replies and kills observed by a scripted transport client of the server library"])

prop("C24", "The server program starts as configured and a signal ends it in good order",
 "Started with a usable configuration file, the nymea-remoteproxy program answers on all configured endpoints, also when socket files of a killed proxy are still there; with an unusable one (missing file, certificate or key, a log file that cannot be written, an unknown option) it ends with a failure status and leaves nothing behind. If a log file is enabled in the configuration or by option, everything it prints from then on is appended to it, older content is kept. SIGTERM, SIGINT, SIGHUP and SIGQUIT at any moment (at the start, idle, in the middle of traffic, repeated) close every connection, remove the socket files, free the ports and end the program promptly with status 0, so that it can be started again at once.",
 ["configurations", "schedules", "fault_sequences", "histories"], "All configuration files and command lines, all moments of a signal relative to the work in progress, any number of lives in a row.",
 "The server program has no tests; the tests run the engine in the test process and stop it when it is idle.",
 ["server/main.cpp", "server/remoteproxyserverapplication.cpp", L+"engine.cpp", L+"proxyconfiguration.cpp"],
 [("signal handling", "server/remoteproxyserverapplication.cpp catchUnixSignals"), ("start and log file", "server/main.cpp main")],
 ["exit status, output and log file of the program", "its connections, socket files and ports"])

prop("C25", "The tunnel client tool connects as it is told",
 "The nymea-remoteproxy-tunnelclient program registers at the proxy of the given TCP or TLS URL (address or host name) with the given name and UUID: as a server (also by default), which with -r echoes to every client exactly the bytes it sent, and which comes back when the proxy has been restarted; or as a client of the given server, which sends random data exactly if told so with -r and otherwise prints what it receives. It never registers at a proxy whose certificate cannot be verified unless told to ignore that, and ends with a failure status, without connecting, if its arguments are unusable.",
 ["inputs", "configurations", "histories"], "All argument combinations, all bytes and chunkings of tunnel data, any number of clients coming and going, restarts of the proxy.",
 "The tunnel client tool has no tests.",
 ["tunnelclient/main.cpp", "tunnelclient/serverconnection.cpp", "tunnelclient/clientconnection.cpp", C+"tcpsocketconnection.cpp"],
 [("echo", "tunnelclient/serverconnection.cpp"), ("certificate decision", "tunnelclient/clientconnection.cpp, tunnelclient/serverconnection.cpp sslErrors")],
 ["registrations and data seen by the proxy and its other peers", "exit status and output of the tool"])

prop("C26", "Connections that are gone leave nothing behind",
 "Once a connection has ended and its timeouts have passed, the proxy keeps no object, file descriptor or memory of it, whatever the peer did, whether it registered, on whatever endpoint (the monitor's included) and however it ended. The same holds for the objects of the client library, which can connect, fail to connect, transfer data and disconnect any number of times, and, while a tunnel server runs on, for the sockets of its clients and its own requests. So the program can serve any number of connections one after another.",
 ["histories", "inputs"], "All sessions of any number of peers on all endpoints, repeated any number of times; all ways in which they end.",
 "Tests look at single connections, and a leak of one object per connection is invisible until the process has run for weeks.",
 [L+"server/unixsocketserver.cpp", L+"server/tcpsocketserver.cpp", L+"server/websocketserver.cpp", L+"server/monitorserver.cpp", L+"tunnelproxy/tunnelproxyserver.cpp", C+"tunnelproxy/tunnelproxysocketserver.cpp", C+"tunnelproxy/tunnelproxyremoteconnection.cpp"],
 [("end of a connection", L+"tunnelproxy/tunnelproxyserver.cpp onClientDisconnected"), ("end of a socket", L+"server/unixsocketserver.cpp onClientConnected, "+L+"server/tcpsocketserver.cpp incomingConnection")],
 ["live QObjects, open file descriptors and allocated bytes of the process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
