// C07: disconnects.
#include "mix.h"

namespace {
void run(Src &s, Ctx &c)
{
    World w(s, c, {"close-", "discreply", "notif-extra", "misroute", "data-missing", "stall"});
    w.start();
    Mix m;
    m.warmServers = s.range(1, 3);
    m.warmClients = s.range(1, 3);
    m.badReg = 5;
    m.regServer = 7;
    m.regClient = 16;
    m.connect = 14;
    m.clientSend = 5;
    m.serverSend = 5;
    m.close = 12;
    m.sendClose = 3;
    m.disconnect = 16;
    m.burst = 4;
    m.request = 2;
    m.maxConns = 16;
    m.minOps = 8;
    m.maxOps = 50;
    m.maxPayload = 300;
    Mixer x(w, m);
    x.run();
    w.finish();
    c.label("registrations", x.st.regOk);
    c.label("closed connections", x.st.closes);
    c.label("DisconnectClient", x.st.disconnects);
    if (x.st.closes + x.st.disconnects >= 2)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C07";
    p.rule = "a session with several servers and clients in which servers and clients close or reset their connections and servers call DisconnectClient with addresses of own clients, of other servers' clients, of gone clients and out of range; which connections are still open is compared with the model after every operation. Non-trivial: at least 2 closes or DisconnectClient calls. Distinct by the session's operations.";
    p.run = run;
    p.quickCases = 9000;
    p.thoroughCases = 60000;
    return p;
}
