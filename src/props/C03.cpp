// C03: isolation and routing.
#include "mix.h"

namespace {
void run(Src &s, Ctx &c)
{
    World w(s, c, {"misroute", "data", "frame", "stall", "reply-extra", "reply-garbage", "close-unexpected@data", "close-unexpected@frames", "ws-protocol"});
    w.start();
    Mix m;
    m.warmServers = s.range(1, 3);
    m.warmClients = s.range(1, 3);
    m.maxConns = 16;
    m.clientSend = 16;
    m.serverSend = 20;
    m.burst = 10;
    m.close = 5;
    m.disconnect = 3;
    m.regServer = 5;
    m.regClient = 12;
    m.connect = 8;
    m.badReg = 8;
    m.control = 5;
    m.eager = true;
    m.maxPayload = 400;
    m.minOps = 10;
    m.maxOps = 45;
    Mixer x(w, m);
    x.run();
    w.finish();
    c.label("data operations", x.st.delivered);
    c.label("registrations", x.st.regOk);
    c.label("closed connections", x.st.closes);
    if (x.st.delivered >= 3 && x.st.maxClients >= 2)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C03";
    p.rule = "a session with 1 to 3 servers whose clients have the same socket addresses, unregistered connections, frames to addresses of other servers' clients, of gone clients and to unused addresses, payloads that look like requests; every byte every connection receives is matched with the model. Non-trivial: at least 2 clients and 3 payloads. Distinct by the session's operations.";
    p.run = run;
    p.quickCases = 9000;
    p.thoroughCases = 60000;
    return p;
}
