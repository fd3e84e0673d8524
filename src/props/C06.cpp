// C06: ClientConnected and ClientDisconnected.
#include "mix.h"

namespace {
void run(Src &s, Ctx &c)
{
    World w(s, c, {"notif", "addr", "frame", "close-unexpected", "stall"});
    w.start();
    Mix m;
    m.warmServers = s.range(1, 2);
    m.warmClients = s.range(0, 2);
    m.badReg = 20;
    m.regServer = 5;
    m.regClient = 20;
    m.connect = 16;
    m.clientSend = 6;
    m.serverSend = 4;
    m.close = 9;
    m.sendClose = 8;
    m.disconnect = 5;
    m.burst = 3;
    m.request = 2;
    m.invalid = 1;
    m.pause = 3;
    m.eager = true;
    m.maxConns = 14;
    m.minOps = 10;
    m.maxOps = 60;
    m.maxPayload = 300;
    m.hugePercent = 1;
    m.hugeMax = 100000;
    Mixer x(w, m);
    x.run();
    w.finish();
    c.label("registrations", x.st.regOk);
    c.label("refused registrations", x.st.regRefused);
    c.label("closed connections", x.st.closes);
    c.label("DisconnectClient", x.st.disconnects);
    c.label("data with registration", x.st.eager);
    if (x.st.regOk >= 3 && x.st.closes >= 1)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C06";
    p.rule = "a session in which clients register (any names and UUID spellings), send data (also with the registration), close, reset, send and close at once, and are disconnected by their server; the notifications every connection receives are matched one by one with the model. Non-trivial: at least 3 registrations and a close. Distinct by the session's operations.";
    p.run = run;
    p.quickCases = 9000;
    p.thoroughCases = 60000;
    return p;
}
