// C08: one reply per request, independent of chunking.
#include "probes.h"

namespace {
const std::vector<std::string> judged = {"reply", "regreply", "discreply", "errreply", "frame", "close-unexpected", "stall", "connect", "ws-protocol"};

void run(Src &s, Ctx &c)
{
    World w(s, c, judged);
    SutOptions o;
    if (s.chance(1, 2))
        o.name = s.unicode(40);
    w.start(o);
    Mix m;
    m.warmServers = 1;
    m.warmClients = s.range(0, 1);
    m.badReg = 15;
    m.request = 50;
    m.batch = 15;
    m.regServer = 6;
    m.regClient = 8;
    m.connect = 10;
    m.clientSend = 2;
    m.serverSend = 8;
    m.control = 30;
    m.invalid = s.chance(1, 2) ? 6 : 0;
    m.close = 4;
    m.sendClose = 1;
    m.disconnect = 3;
    m.burst = 1;
    m.unixW = 4;
    m.tcpW = 3;
    m.wsW = 3;
    m.maxConns = 10;
    m.minOps = 8;
    m.maxOps = 40;
    m.maxPayload = 200;
    Mixer x(w, m);
    x.run();
    w.finish();
    c.label("requests", x.st.requests + x.st.regOk + x.st.regRefused + x.st.controls);
    if (x.st.requests >= 4)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C08";
    p.rule = "a session with batches of 1 to 40 requests (Hello, Introspect, Ping, registrations, DisconnectClient, invalid requests; any id, key order, white space, escapes and names) cut into chunks at any place, preferably at braces, newlines and inside characters, as separate writes, WebSocket messages or continuation frames, and as control frames of servers; replies are matched in order with the model. Non-trivial: at least 4 requests. Distinct by the session's operations.";
    p.assumptions = {"a registration request's newline arrives with its closing brace, and no chunk ends right behind a brace inside a string: both are recorded as known findings"};
    p.run = run;
    p.quickCases = 3000;
    p.thoroughCases = 60000;
    p.probes = {
        {"brace-in-string", "a request cut directly behind a closing brace inside a string is refused as invalid JSON", [](Ctx &c) {
             ProbeWorld q(c, {""});
             int k = q.w.connect(Tr::Unix);
             QByteArray r = "{\"id\":1,\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"a}b\",\"serverUuid\":\"" + q.w.uuidPool[0].toByteArray() + "\"}}\n";
             q.w.regServer(q.w.at(k), 1, q.w.uuidPool[0].toString(), "a}b");
             q.send(k, r, {int(r.indexOf("a}")) + 2});
             q.w.settle("register");
         }},
        {"registration-newline", "the newline of a RegisterServer request that arrives separately damages the first frame of the server", [](Ctx &c) {
             ProbeWorld q(c, {""});
             int k = q.w.connect(Tr::Unix);
             QByteArray r = q.w.regServer(q.w.at(k), 1, q.w.uuidPool[0].toString(), "s");
             q.send(k, r, {int(r.size()) - 1});
             q.w.settle("register");
             q.send(k, World::slipFrame(0, q.w.ping(q.w.at(k), 2, 5)));
             q.w.settle("request");
         }},
        {"nested-brace", "a request cut behind the closing brace of a nested object is refused as invalid JSON", [](Ctx &c) {
             ProbeWorld q(c, {""});
             int k = q.w.connect(Tr::Unix);
             q.w.ping(q.w.at(k), 7, 5);
             QByteArray r = "{\"id\":7,\"params\":{\"timestamp\":5},\"method\":\"TunnelProxy.Ping\"}\n";
             q.send(k, r, {int(r.indexOf("}")) + 1});
             q.w.settle("request");
         }},
    };
    return p;
}
