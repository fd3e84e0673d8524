// C13: monitor statistics.
#include "mix.h"
#include "vclock.h"
#include <QJsonDocument>

namespace {
struct Monitors {
    World &w;
    std::vector<std::unique_ptr<Peer>> open;
    qint64 last = -1; // throughput of the last completed second
    int phase = 0;
    qint64 elapsed = 0;
    int checks = 0, nonzero = 0;

    void step(int ms)
    {
        // never across the end of a second
        w.advance(ms);
        elapsed += ms;
        phase += ms;
        if (phase >= 1000) {
            phase = 0;
            last = qint64(w.throughput);
            w.throughput = 0;
        }
    }

    void io()
    {
        for (int i = 0; i < 4; i++) {
            w.spin(1);
            for (auto &m : open)
                m->io();
        }
    }

    void add()
    {
        if (open.size() >= 4)
            return;
        auto p = std::make_unique<Peer>(Tr::Unix, false);
        if (!p->open(w.sut.monitorPath, 0))
            w.fail("stats-connect", "cannot connect to the monitor socket");
        open.push_back(std::move(p));
        io();
        w.c.trace("a monitor connects");
    }

    void quiet(size_t except)
    {
        for (size_t i = 0; i < open.size(); i++) {
            if (i == except)
                continue;
            if (!open[i]->in.isEmpty())
                w.fail("stats-format", "a monitor that has not asked received " + QString::fromUtf8(open[i]->in.left(200)));
            if (open[i]->closed())
                w.fail("stats-closed", "a monitor that has done nothing was closed");
        }
    }

    void ask(size_t i, bool all)
    {
        Peer &p = *open[i];
        QByteArray req;
        if (all)
            req = w.s.chance(1, 2) ? "{\"method\":\"refresh\",\"params\":{\"printAll\":true}}" : "{ \"params\" : { \"printAll\" : true } ,\n \"method\" : \"refresh\" }";
        else
            req = w.s.chance(1, 2) ? "{\"method\":\"refresh\"}" : w.s.chance(1, 2) ? "{\"method\":\"refresh\",\"params\":{}}" : "{\"method\":\"refresh\",\"params\":{\"printAll\":false}}";
        if (w.s.chance(1, 2))
            req += "\n";
        p.send(req);
        double t0 = vclock::realSecs();
        while (!p.in.endsWith('\n')) {
            io();
            if (p.closed())
                w.fail("stats-closed", "a monitor was closed after " + QString::fromUtf8(req));
            if (vclock::realSecs() - t0 > 2)
                w.fail("stats-missing", "no answer to " + QString::fromUtf8(req));
        }
        io();
        QByteArray in = p.in;
        p.in.clear();
        if (in.indexOf('\n') != in.size() - 1)
            w.fail("stats-format", "not exactly one line answers a refresh");
        quiet(i);
        QJsonParseError err;
        QJsonDocument d = QJsonDocument::fromJson(in, &err);
        if (err.error != QJsonParseError::NoError || !d.isObject())
            w.fail("stats-format", "the answer is no JSON object");
        w.checkMonitorDoc(d.object(), all, last);
        checks++;
        nonzero += last > 0;
    }

    void garbage(size_t i)
    {
        static const std::vector<QByteArray> bad = {"x", "{}", "{\"method\":\"Refresh\"}", "{\"method\":\"refresh\"", "{\"method\":7}", "[]", "{\"params\":{\"printAll\":true}}", "\xff\xc0", "{\"method\":\"refresh\"}}", "{\"method\":\"\"}", "null"};
        QByteArray b = w.s.chance(1, 4) ? w.s.bytes(w.s.range(1, 100)).prepend('\x01') : w.s.pick(bad);
        w.c.trace("a monitor sends " + hexs(b));
        Peer &p = *open[i];
        p.send(b);
        double t0 = vclock::realSecs();
        while (!p.closed()) {
            io();
            if (vclock::realSecs() - t0 > 2)
                w.fail("stats-open", "a monitor is not closed after " + QString::fromUtf8(b));
        }
        if (!p.in.isEmpty())
            w.fail("stats-format", "an unintelligible monitor request is answered with " + QString::fromUtf8(p.in.left(200)));
        p.close();
        open.erase(open.begin() + long(i));
        quiet(size_t(-1));
        bad_++;
    }
    int bad_ = 0;

    void op()
    {
        Span sp(w.s);
        w.step = "monitor";
        switch (w.s.weighted({10, 3, 2, 2})) {
        case 0: {
            if (open.empty())
                add();
            bool all = w.s.chance(1, 2);
            w.c.trace(QString("a monitor asks, printAll=%1").arg(all));
            ask(w.s.draw(open.size()), all);
            break;
        }
        case 1:
            add();
            break;
        case 2:
            if (!open.empty()) {
                size_t i = w.s.draw(open.size());
                w.c.trace("a monitor leaves");
                if (w.s.chance(1, 3))
                    open[i]->send("{\"method\":\"refresh\"}");
                open[i]->close();
                open.erase(open.begin() + long(i));
                io();
            }
            break;
        default:
            if (open.empty())
                add();
            garbage(w.s.draw(open.size()));
            break;
        }
        w.settle("monitor");
    }
};

void run(Src &s, Ctx &c)
{
    World w(s, c, {"stats", "close-unexpected@monitor", "data-missing", "stall"});
    SutOptions o;
    o.inactiveTimeout = 100000000;
    if (s.chance(1, 3))
        o.name = s.unicode(30);
    w.start(o);
    Monitors mon{w};
    w.advance(2000); // a second ends here
    Mix m;
    m.warmServers = s.range(0, 2);
    m.warmClients = s.range(0, 2);
    m.badReg = 10;
    m.regServer = 8;
    m.regClient = 14;
    m.connect = 14;
    m.clientSend = 12;
    m.serverSend = 12;
    m.close = 6;
    m.sendClose = 2;
    m.disconnect = 3;
    m.burst = 4;
    m.request = 5;
    m.badFrame = 8;
    m.wsBinary = 1;
    m.unixW = 4;
    m.tcpW = 3;
    m.wsW = 3;
    m.maxConns = 14;
    m.maxPayload = 2000;
    Mixer x(w, m);
    if (m.warmServers)
        x.warmup();
    int n = s.range(10, c.tier == "thorough" ? 70 : 45);
    for (int i = 0; i < n; i++) {
        switch (s.weighted({6, 3, 3})) {
        case 0:
            x.op();
            break;
        case 1: {
            Span sp(s);
            int left = 1000 - mon.phase;
            int ms = s.pick<int>({250, 500, 1000});
            ms = std::min(ms, left);
            if (mon.elapsed + ms > 50000)
                break;
            c.trace(QString("%1 ms pass").arg(ms));
            mon.step(ms);
            w.settle("time");
            break;
        }
        default:
            mon.op();
            break;
        }
    }
    if (mon.open.empty())
        mon.add();
    c.trace("final reports");
    mon.ask(0, true);
    mon.ask(0, false);
    w.finish();
    c.label("reports compared", mon.checks);
    c.label("reports with throughput", mon.nonzero);
    c.label("bad monitor requests", mon.bad_);
    if (mon.checks >= 2 && x.st.regOk >= 1)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C13";
    p.rule = "a session of connections, registrations, tunnel data, closes and passing time with up to 4 monitors that ask, ask nonsense, stay silent or leave; every report is compared field by field with the model. Non-trivial: at least 2 reports and a registration. Distinct by the session's operations.";
    p.assumptions = {"a monitor sends one request per write", "the one-second windows start at a moment the driver controls with the virtual clock"};
    p.run = run;
    p.quickCases = 9000;
    p.thoroughCases = 60000;
    return p;
}
