// C11: idle connections are closed on time, registered ones are not.
#include "mix.h"
#include "vclock.h"
#include <QJsonObject>
#include <sys/socket.h>

namespace {
struct Reaper {
    World &w;
    Mixer &x;
    qint64 limit;
    int timeouts = 0, silent = 0, survivors = 0, longClients = 0, fedLate = 0;

    // [lo, hi]: when the timer may go off, Qt's coarse timers are up to 5 % or one second off
    void window(const Conn &k, qint64 *lo, qint64 *hi) const
    {
        qint64 t = k.st == Conn::Server ? 60000 : limit;
        qint64 tol = t >= 19000 ? 2000 : t * 6 / 100 + 30;
        *lo = t - tol;
        *hi = t + tol;
    }
    qint64 idle(const Conn &k, qint64 now) const { return now - (k.st == Conn::Server ? k.lastRxMs : k.sinceMs); }

    void advance(qint64 ms)
    {
        w.settle("before");
        qint64 now = vclock::nowMs() + ms;
        QString t;
        std::vector<int> must;
        for (int i : w.live()) {
            Conn &k = w.at(i);
            if (k.st == Conn::Client) {
                if (ms > 60000)
                    longClients++;
                continue;
            }
            qint64 lo, hi;
            window(k, &lo, &hi);
            qint64 e = idle(k, now);
            if (e >= hi) {
                must.push_back(i);
                t += " " + w.describe(k);
            } else if (e > lo) {
                k.mayClose = true;
                if (k.st == Conn::Server) {
                    for (int cl : w.clientsOf(i))
                        w.at(cl).mayClose = true;
                }
            } else {
                survivors++;
            }
        }
        for (int i : must) {
            Conn &k = w.at(i);
            if (k.st == Conn::Dead)
                continue;
            (k.st == Conn::Server ? silent : timeouts)++;
            if (k.st == Conn::None && now - ms - k.lastRxMs < limit / 2)
                fedLate++;
            w.expectClose(k, "timeout");
        }
        w.c.trace(QString("%1 ms pass").arg(ms) + (t.isEmpty() ? QString() : ", timeouts:" + t));
        vclock::advanceMs(ms);
        w.settle("advance");
    }

    qint64 step()
    {
        Src &s = w.s;
        // aim at the moment just before or just after somebody's limit
        std::vector<int> v;
        for (int i : w.live()) {
            if (w.at(i).st != Conn::Client)
                v.push_back(i);
        }
        switch (s.weighted({4, v.empty() ? 0 : 5, 2, 2, 1})) {
        case 0: return 1 + qint64(s.draw(quint64(limit)));
        case 1: {
            const Conn &k = w.at(s.pick(v));
            qint64 lo, hi;
            window(k, &lo, &hi);
            qint64 e = idle(k, vclock::nowMs());
            qint64 target = s.chance(1, 2) ? hi : lo;
            return std::max<qint64>(1, target - e);
        }
        case 2: return 30000 + qint64(s.draw(3)) * 13000;
        case 3: return qint64(s.draw(700)) + 1;
        default: return 70000 + qint64(s.draw(400000));
        }
    }

    // a sign of life: anything at all, also half a frame
    void feed()
    {
        std::vector<int> v = w.byState(Conn::Server);
        if (v.empty())
            return;
        Conn &k = w.at(w.s.pick(v));
        if (w.s.chance(2, 3)) {
            QByteArray f = World::slipFrame(0, w.ping(k, w.freshId(), 7.0));
            w.c.trace(w.describe(k) + " pings");
            w.transmit(k, f, w.rawChunks(f));
        } else {
            w.c.trace(w.describe(k) + " sends an END byte");
            w.transmit(k, QByteArray(1, char(0xC0)), Chunks());
        }
        w.settle("request");
    }
};

// a peer that does not read what the proxy sends to it cannot stay for ever
void stuck(Src &s, Ctx &c)
{
    World w(s, c, {"close-missing:stuck", "close-unexpected@stuck", "stuck"});
    SutOptions o;
    o.inactiveTimeout = s.pick<int>({8000, 1000, 30000});
    o.tls = s.chance(1, 5);
    w.start(o);
    int kind = s.range(0, 2); // a silent server, an unregistered connection, a slow client whose server leaves
    Tr tr = s.pick<Tr>({Tr::Unix, Tr::Tcp, Tr::Ws});
    Tr str = kind == 0 ? (tr == Tr::Ws ? Tr::Unix : tr) : s.pick<Tr>({Tr::Unix, Tr::Tcp});
    QUuid su = w.uuidPool[0], cu = w.uuidPool[1];
    auto counts = [&]() {
        QJsonObject st = w.monitorRequest("{\"method\":\"refresh\"}")["tunnelProxyStatistic"].toObject();
        return std::vector<int>{st["totalClientCount"].toInt(-1), st["serverConnectionsCount"].toInt(-1), st["clientConnectionsCount"].toInt(-1)};
    };
    auto narrow = [&](Conn &k) {
        int small = 65536;
        setsockopt(k.peer->fd(), SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
        k.peer->paused = true;
    };
    const char *what[] = {"a silent server", "an unregistered connection", "a slow client whose server leaves"};
    QByteArray sent;
    c.trace(QString("%1 does not read, %2, the server %3, TLS %4, timeout %5").arg(what[kind], trName(tr), trName(str)).arg(o.tls).arg(o.inactiveTimeout));
    int server = -1, client = -1, stuckOne = -1;
    qint64 limit = 0;
    if (kind != 1) {
        server = w.connect(str);
        w.transmit(w.at(server), w.regServer(w.at(server), 1, su.toString(), "server"), Chunks());
        w.settle("stuck");
        client = w.connect(kind == 0 ? s.pick<Tr>({Tr::Unix, Tr::Tcp, Tr::Ws}) : tr);
        w.transmit(w.at(client), w.regClient(w.at(client), 2, cu.toString(), su.toString(), "client"), Chunks());
        w.settle("stuck");
        stuckOne = kind == 0 ? server : client;
        narrow(w.at(stuckOne));
        QByteArray unit = s.utf8Text(300) + "#", p;
        while (p.size() < 200000)
            p += unit;
        int n = s.range(w.at(stuckOne).tr == Tr::Unix ? 10 : 40, 60);
        Chunks ch;
        ch.pumpBetween = false;
        for (int i = 0; i < n; i++) {
            if (kind == 0) {
                w.clientSend(w.at(client), p);
                w.transmit(w.at(client), p, ch);
            } else {
                w.transmit(w.at(server), w.frameTo(w.at(server), w.at(client).addr, p), ch);
                sent += p;
            }
            w.settle("stuck");
        }
        limit = 62000;
        if (kind == 2)
            w.at(server).peer->close();
    } else {
        stuckOne = w.connect(tr);
        w.settle("stuck");
        narrow(w.at(stuckOne));
        int n = s.range(tr == Tr::Unix ? 100 : 1000, 1500);
        for (int i = 0; i < n; i++) {
            w.at(stuckOne).peer->send("{\"id\":" + QByteArray::number(i) + ",\"method\":\"RemoteProxy.Introspect\"}\n");
            if (i % 20 == 0)
                w.spin(3);
        }
        limit = o.inactiveTimeout + (o.inactiveTimeout >= 19000 ? 2000 : o.inactiveTimeout * 6 / 100 + 30);
    }
    w.spin(20);
    if (kind == 2) {
        // reads a part now and then, and gets everything
        Peer &r = *w.at(stuckOne).peer;
        for (int i = s.range(1, 8); i > 0 && !r.closed(); i--) {
            vclock::advanceMs(s.range(10, 50) * 1000);
            w.spin(2);
            r.paused = false;
            w.spin(s.range(1, 3));
            r.paused = true;
            w.spin(2);
            c.beat();
        }
        r.paused = false;
        double t0 = vclock::realSecs();
        while (!r.closed()) {
            w.spin(2);
            c.beat();
            if (vclock::realSecs() - t0 > 8)
                w.fail("stuck", "a slow client sees no end of its connection");
        }
        if (r.in != sent)
            w.fail("stuck", QString("a slow client whose server left receives %1 of %2 bytes").arg(r.in.size()).arg(sent.size()));
        c.label("slow readers");
        c.nontrivial();
        for (auto &x : w.conns)
            x->peer->close();
        w.sut.stop();
        return;
    }
    std::vector<int> before = counts();
    if (before[0] < 1)
        c.abandon(std::string("gone-early-") + char('0' + kind) + trName(tr) + (o.tls ? "-tls" : ""));
    // it is given as much time again to take what it was sent before
    for (qint64 t = 0; t < 2 * limit + 2000; t += 500) { // steps and coarse timers add to the limit
        vclock::advanceMs(500);
        w.spin(3);
        if (t % 5000 == 0)
            c.beat();
    }
    std::vector<int> after = counts();
    if (after != std::vector<int>{0, 0, 0})
        w.fail("stuck", QString("%1 which does not read is still there %2 s later: %3 connections, %4 servers, %5 clients").arg(what[kind]).arg(2 * limit / 1000).arg(after[0]).arg(after[1]).arg(after[2]));
    // and when it reads again it sees the end
    Peer &p = *w.at(stuckOne).peer;
    p.paused = false;
    double t0 = vclock::realSecs();
    while (!p.closed()) {
        w.spin(3);
        c.beat();
        if (vclock::realSecs() - t0 > 5)
            w.fail("stuck", QString("%1 sees no end of its connection").arg(what[kind]));
    }
    // its name is free
    int again = w.connect(s.pick<Tr>({Tr::Unix, Tr::Tcp}));
    Conn &k = w.at(again);
    QByteArray reg = "{\"id\":9,\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"x\",\"serverUuid\":\"" + su.toByteArray() + "\"}}";
    k.peer->send(reg);
    t0 = vclock::realSecs();
    while (!k.peer->in.contains('}')) {
        w.spin(3);
        if (vclock::realSecs() - t0 > 5)
            w.fail("stuck", "no answer to a registration");
    }
    if (!k.peer->in.contains("TunnelProxyErrorNoError"))
        w.fail("stuck", "its UUID cannot be used again: " + QString::fromUtf8(k.peer->in));
    c.label("peers that do not read");
    c.nontrivial();
    for (auto &x : w.conns)
        x->peer->close();
    w.sut.stop();
}

void run(Src &s, Ctx &c)
{
    if (s.chance(1, 300)) {
        stuck(s, c);
        return;
    }
    World w(s, c, {"close-missing:timeout", "close-unexpected@advance", "close-unexpected@before"});
    SutOptions o;
    o.inactiveTimeout = s.pick<int>({8000, 1000, 2500, 5000, 12000, 18000, 30000, 90000});
    w.start(o);
    Mix m;
    m.warmServers = s.range(0, 2);
    m.warmClients = s.range(0, 2);
    m.badReg = 40;
    m.request = 8;
    m.regServer = 5;
    m.regClient = 8;
    m.connect = 14;
    m.clientSend = 8;
    m.serverSend = 4;
    m.close = 2;
    m.sendClose = 1;
    m.disconnect = 1;
    m.burst = 1;
    m.partial = 4;
    m.invalid = 0;
    m.maxConns = 10;
    m.maxPayload = 100;
    Mixer x(w, m);
    Reaper r{w, x, o.inactiveTimeout};
    c.trace(QString("inactivity timeout %1 ms").arg(o.inactiveTimeout));
    x.warmup();
    int n = s.range(10, 50);
    for (int i = 0; i < n; i++) {
        Span sp(s);
        switch (s.weighted({6, 6, 2})) {
        case 0: x.op(); break;
        case 1: r.advance(r.step()); break;
        default: r.feed(); break;
        }
    }
    w.finish();
    c.label("unregistered connections timed out", r.timeouts);
    c.label("of these recently active", r.fedLate);
    c.label("silent servers timed out", r.silent);
    c.label("connections that had to survive an advance", r.survivors);
    c.label("registered clients idle for more than a minute", r.longClients);
    if (r.timeouts + r.silent >= 1 && r.survivors >= 1)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C11";
    p.rule = "a session of connections, registrations (many refused), requests, half requests and data, between which the virtual clock is advanced, preferably to just before or just after the limit of some connection; the configured timeout varies from 1 to 90 s; one case in 300 has a peer that does not read what is sent to it (a silent server, an unregistered connection, a slow client whose server leaves). Non-trivial: at least one connection timed out and at least one had to survive. Distinct by the session's operations.";
    p.assumptions = {"closing is expected within 6 % (from 19 s on 2 s) of the nominal time, in the rest of that window both outcomes are accepted: Qt's coarse timers are used"};
    p.run = run;
    p.quickCases = 20000;
    p.thoroughCases = 400000;
    return p;
}
