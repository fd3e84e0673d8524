// C02: byte transparency and order of the tunnel.
#include "probes.h"

namespace {
void run(Src &s, Ctx &c)
{
    World w(s, c, {"data", "misroute", "frame", "stall", "reply-garbage"});
    w.start();
    Mix m;
    m.clientSend = 20;
    m.serverSend = 20;
    m.burst = 14;
    m.pause = 4;
    m.close = 2;
    m.badReg = 3;
    m.disconnect = 1;
    m.request = 2;
    m.minOps = 10;
    m.maxOps = 45;
    m.maxPayload = 3000;
    m.hugePercent = c.tier == "thorough" ? 4 : 2;
    m.hugeMax = c.tier == "thorough" ? 2000000 : 250000;
    m.backlog = s.chance(1, 8) ? 1 : 0;
    m.unixW = 5;
    m.tcpW = 3;
    m.wsW = 2;
    Mixer x(w, m);
    x.run();
    w.finish();
    c.label("data operations", x.st.delivered);
    c.label("payload KiB", long(x.st.bytes / 1024));
    c.label("bursts", x.st.bursts);
    c.label("slow readers", x.st.paused);
    c.label("backlogs", x.st.backlogs);
    if (x.st.delivered >= 3)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C02";
    p.rule = "a session of connects, registrations, client writes and server frames (any bytes, any chunking, bursts without waiting, readers that pause while up to several megabytes queue up) over Unix, TCP and WebSocket connections; non-trivial: at least 3 payloads tunnelled. Distinct by the session's operations.";
    p.run = run;
    p.quickCases = 9000;
    p.thoroughCases = 60000;
    p.assumptions = {"payloads for WebSocket clients are UTF-8 text and tunnel servers do not use WebSocket: both are recorded as known findings"};
    p.probes = {
        {"websocket-client-bytes", "a payload that is not UTF-8 does not arrive unmodified at a WebSocket client", [](Ctx &c) {
             ProbeWorld q(c, {""});
             int sv = q.server(Tr::Unix), cl = q.client(Tr::Ws, sv, 1);
             q.send(sv, q.w.frameTo(q.w.at(sv), q.w.at(cl).addr, QByteArray("a\xC0\xFF z", 5)));
             q.w.settle("data");
         }},
        {"websocket-server-frames", "SLIP frames do not arrive unmodified at a tunnel server that uses WebSocket", [](Ctx &c) {
             ProbeWorld q(c, {""});
             int sv = q.server(Tr::Ws);
             int k = q.w.connect(Tr::Unix);
             q.send(k, q.w.regClient(q.w.at(k), 2, q.w.uuidPool[1].toString(), q.w.uuidPool[0].toString(), "client"));
             q.w.settle("register");
             (void) sv;
         }},
        {"frame-escapes", "a frame of a server is delivered still escaped", [](Ctx &c) {
             ProbeWorld q(c, {""});
             int sv = q.server(Tr::Unix), cl = q.client(Tr::Tcp, sv, 1);
             q.send(sv, q.w.frameTo(q.w.at(sv), q.w.at(cl).addr, QByteArray("a\xC0\xDB z", 5)));
             q.w.settle("data");
         }},
    };
    return p;
}
