// C22: bad frames.
#include "mix.h"

namespace {
void run(Src &s, Ctx &c)
{
    World w(s, c, {"data", "misroute", "frame", "stall", "reply", "discreply", "errreply", "close-", "notif"});
    w.start();
    Mix m;
    m.warmServers = s.range(1, 2);
    m.warmClients = s.range(1, 3);
    m.badReg = 2;
    m.regServer = 2;
    m.regClient = 8;
    m.connect = 6;
    m.clientSend = 6;
    m.serverSend = 40;
    m.badFrame = 45;
    m.control = 15;
    m.close = 2;
    m.sendClose = 1;
    m.disconnect = 2;
    m.burst = 8;
    m.request = 3;
    m.invalid = 3;
    m.maxConns = 12;
    m.minOps = 8;
    m.maxOps = 40;
    m.maxPayload = 400;
    Mixer x(w, m);
    x.run();
    w.finish();
    c.label("bad pieces", x.st.badFrames);
    c.label("payloads", x.st.delivered);
    c.label("control requests among frames", x.st.controls);
    c.label("invalid requests", x.st.invalid);
    if (x.st.badFrames >= 2 && x.st.delivered >= 2)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C22";
    p.rule = "a session in which servers mix well-formed data and control frames with invalid escapes, empty frames, frames shorter than an address and frames to nobody, in any chunking; everything after a bad piece is compared with the model. Non-trivial: at least 2 bad pieces and 2 payloads. Distinct by the session's operations.";
    p.run = run;
    p.quickCases = 9000;
    p.thoroughCases = 60000;
    return p;
}
