// C09: invalid input.
#include "mix.h"

namespace {
void run(Src &s, Ctx &c)
{
    World w(s, c, {"errreply", "close-missing:invalid", "close-missing:binary", "close-unexpected", "reply", "data", "misroute", "stall", "notif", "frame", "connect"});
    w.start();
    Mix m;
    m.warmServers = s.range(1, 2);
    m.warmClients = s.range(1, 2);
    m.badReg = 5;
    m.invalid = 30;
    m.partial = 5;
    m.garbage = 8;
    m.wsBinary = 3;
    m.request = 5;
    m.regServer = 6;
    m.regClient = 10;
    m.connect = 20;
    m.clientSend = 8;
    m.serverSend = 8;
    m.badFrame = 10;
    m.close = 4;
    m.sendClose = 1;
    m.disconnect = 2;
    m.burst = 4;
    m.unixW = 4;
    m.tcpW = 3;
    m.wsW = 3;
    m.maxConns = 14;
    m.minOps = 8;
    m.maxOps = 45;
    m.maxPayload = 300;
    Mixer x(w, m);
    x.run();
    w.finish();
    c.label("invalid requests", x.st.invalid);
    c.label("strangers", x.st.garbage);
    c.label("payloads", x.st.delivered);
    if (x.st.invalid >= 2)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C09";
    p.rule = "a session in which unregistered connections and servers send invalid JSON, requests without an integer id, unknown namespaces and methods, missing, unknown and unusable parameters, unfinished and deeply nested input, strangers send arbitrary bytes to every endpoint, and tunnels are used in between; the error reply, the close and everything the others see are compared with the model, under ASan and UBSan. Non-trivial: at least 2 invalid requests. Distinct by the session's operations.";
    p.run = run;
    p.quickCases = 9000;
    p.thoroughCases = 60000;
    return p;
}
