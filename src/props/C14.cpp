// C14: all transports offer the same service.
#include "mix.h"

namespace {
struct Outcome {
    std::string cat, msg; // empty: as the model predicts
    bool set = false;     // the case could not be judged
    std::vector<QStringList> logs;
    MixStats st;
};

const char *mapName[] = {"all Unix", "all TCP", "WebSocket with TCP servers", "WebSocket with Unix servers", "mixed"};

Outcome session(Src &s, Ctx &c, int mapping, const Mix &m)
{
    Outcome o;
    World w(s, c, {""});
    w.uniform = true;
    int n = 0;
    w.forced = [mapping, &n](bool server) {
        n++;
        switch (mapping) {
        case 0: return Tr::Unix;
        case 1: return Tr::Tcp;
        case 2: return server ? Tr::Tcp : Tr::Ws;
        case 3: return server ? Tr::Unix : Tr::Ws;
        default: return server ? (n % 2 ? Tr::Tcp : Tr::Unix) : n % 3 == 0 ? Tr::Unix : n % 3 == 1 ? Tr::Ws : Tr::Tcp;
        }
    };
    try {
        w.start();
        Mixer x(w, m);
        x.run();
        w.finish();
        o.st = x.st;
    } catch (const Violation &v) {
        o.cat = v.cat;
        o.msg = v.msg;
    }
    for (auto &k : w.conns)
        o.logs.push_back(k->log);
    return o;
}

void run(Src &s, Ctx &c)
{
    Mix m;
    m.maxConns = 10;
    m.minOps = 6;
    m.maxOps = 25;
    m.maxPayload = 400;
    if (s.chance(1, 4)) {
        // WebSocket specials: binary messages are refused, others are not affected
        World w(s, c, {"close-missing:binary", "close-unexpected@binary", "ws-protocol"});
        w.start();
        m.wsBinary = 10;
        m.unixW = 2;
        m.tcpW = 1;
        m.wsW = 5;
        m.connect = 14;
        m.warmClients = 2;
        Mixer x(w, m);
        x.run();
        w.finish();
        c.label("sessions with binary messages");
        c.nontrivial();
        return;
    }
    m.warmServers = s.range(1, 2);
    m.warmClients = s.range(0, 2);
    m.request = 8;
    m.badReg = 20;
    m.badFrame = 4;
    m.control = 10;
    m.invalid = 2;
    m.connect = 12;
    m.close = 5;
    if (s.chance(1, 20)) {
        m.hugePercent = 10;
        m.hugeMax = 200000;
        c.label("sessions with large payloads");
    }
    size_t begin = s.tape().size();
    QString before = c.traceText;
    Outcome first = session(s, c, 0, m);
    std::vector<uint64_t> part(s.tape().begin() + long(begin), s.tape().end());
    std::vector<Outcome> all = {first};
    std::vector<QString> traces = {c.traceText};
    bool verbose = c.verbose;
    for (int i = 1; i < 5; i++) {
        Src sub(part, nullptr);
        QString keep = c.traceText;
        auto hash = c.traceHash;
        if (verbose)
            fprintf(stderr, "  -- the same with %s\n", mapName[i]);
        all.push_back(session(sub, c, i, m));
        c.traceText = keep;
        c.traceHash = hash;
        c.beat();
    }
    int good = 0;
    for (auto &o : all)
        good += o.cat.empty();
    if (good < 5) {
        // the same deviation everywhere is no difference between transports
        bool same = true;
        for (auto &o : all)
            same &= o.cat == all[0].cat;
        if (same)
            c.abandon("foreign:" + all[0].cat);
        QString t;
        for (int i = 0; i < 5; i++) {
            if (!all[size_t(i)].cat.empty())
                t += QString("%1: %2\n%3\n").arg(mapName[i], QString::fromStdString(all[size_t(i)].cat), QString::fromStdString(all[size_t(i)].msg));
            else
                t += QString("%1: as the model predicts\n").arg(mapName[i]);
        }
        c.fail("transport-difference", t);
    }
    for (int i = 1; i < 5; i++) {
        if (all[size_t(i)].logs != all[0].logs) {
            QString t;
            for (size_t k = 0; k < all[0].logs.size() && k < all[size_t(i)].logs.size(); k++) {
                if (all[0].logs[k] != all[size_t(i)].logs[k])
                    t += QString("connection #%1: %2\nbut with %3: %4\n").arg(k).arg(all[0].logs[k].join(" ").left(1500), mapName[i], all[size_t(i)].logs[k].join(" ").left(1500));
            }
            c.fail("transport-difference-content", t + "history:\n" + c.traceText.right(3000));
        }
    }
    c.label("sessions run on five transport assignments");
    c.label("payloads", first.st.delivered);
    if (first.st.delivered + first.st.requests >= 3)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C14";
    p.rule = "a generated session (requests in any chunking, registrations, UTF-8 payloads, closes, invalid requests) is run five times, with all connections on Unix sockets, on TCP, clients on WebSocket (continuation frames, pings, messages without content) with TCP or Unix servers, and mixed; every run must give the same replies, notifications, deliveries and closes. Another quarter of the cases sends binary WebSocket messages. Non-trivial: at least 3 requests or payloads. Distinct by the session's operations.";
    p.assumptions = {"tunnel servers do not use WebSocket (known finding of C02)"};
    p.run = run;
    p.quickCases = 4000;
    p.thoroughCases = 30000;
    return p;
}
