// C04: registration rules.
#include "mix.h"

namespace {
void run(Src &s, Ctx &c)
{
    World w(s, c, {"regreply", "close-missing:register", "close-unexpected@register", "close-unexpected@connect", "notif-extra", "misroute", "reply-extra", "stall", "frame", "data"});
    w.start();
    Mix m;
    m.warmup = s.chance(2, 3);
    m.badReg = 45;
    m.regServer = 16;
    m.regClient = 20;
    m.connect = 14;
    m.clientSend = 5;
    m.serverSend = 5;
    m.close = 9;
    m.burst = 1;
    m.disconnect = 2;
    m.request = 3;
    m.sendClose = 1;
    m.maxConns = 12;
    m.minOps = 10;
    m.maxOps = 60;
    m.maxPayload = 100;
    Mixer x(w, m);
    x.run();
    w.finish();
    c.label("registrations accepted", x.st.regOk);
    c.label("registrations refused", x.st.regRefused);
    c.label("closed connections", x.st.closes);
    if (x.st.regOk >= 2 && x.st.regRefused >= 1)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C04";
    p.rule = "a session of connections that register as servers and clients with UUIDs of a small pool in different spellings (free, taken in either role, gone again), invalid UUIDs, unknown servers and repeated registrations, with tunnel data in between; non-trivial: at least 2 accepted and 1 refused registration. Distinct by the session's operations.";
    p.run = run;
    p.quickCases = 9000;
    p.thoroughCases = 60000;
    return p;
}
