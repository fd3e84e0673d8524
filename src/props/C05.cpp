// C05: socket addresses, also after the 16-bit counter has wrapped.
#include "mix.h"
#include "vclock.h"
#include <QJsonDocument>
#include <unistd.h>

namespace {
struct Cl {
    std::unique_ptr<Peer> p;
    QUuid uuid;
    int addr = -1;
    bool replied = false;
    bool leaving = false;
    QByteArray expect; // bytes to come
};

struct Town {
    Src &s;
    Ctx &c;
    Sut sut;
    std::unique_ptr<Peer> server;
    QUuid serverUuid = QUuid("{11111111-2222-4333-8444-555555555555}");
    std::list<std::unique_ptr<Cl>> all;
    QHash<QUuid, Cl *> byUuid;
    QHash<int, Cl *> byAddr;
    QHash<int, QByteArray> fromClients;
    quint64 nextUuid = 1;
    long registered = 0, wraps = 0, delivered = 0;
    int lastAddr = 0;
    int waitConnected = 0, waitGone = 0;

    Town(Src &s, Ctx &c) : s(s), c(c), sut(c) {}

    void fail(const std::string &cat, const QString &m) { c.fail(cat, m + "\nhistory:\n" + c.traceText.right(3000)); }

    void pump()
    {
        Sut::spin();
        server->io();
        parseServer();
        if (server->closed())
            c.abandon("foreign:server-closed");
    }

    void parseServer()
    {
        int e;
        while ((e = server->in.indexOf(char(0xC0))) >= 0) {
            QByteArray f = server->in.left(e), d;
            server->in.remove(0, e + 1);
            for (int i = 0; i < f.size(); i++) {
                if (uchar(f[i]) == 0xDB && i + 1 < f.size())
                    d.append(uchar(f[++i]) == 0xDC ? char(0xC0) : char(0xDB));
                else
                    d.append(f[i]);
            }
            if (d.size() < 2)
                c.abandon("foreign:frame");
            int a = uchar(d[0]) << 8 | uchar(d[1]);
            d = d.mid(2);
            if (a != 0) {
                fromClients[a] += d;
                continue;
            }
            QJsonObject o = QJsonDocument::fromJson(d).object();
            QString n = o["notification"].toString();
            QJsonObject p = o["params"].toObject();
            if (n == "TunnelProxy.ClientConnected") {
                Cl *k = byUuid.value(QUuid(p["clientUuid"].toString()));
                if (!k || k->addr >= 0)
                    c.abandon("foreign:notification");
                double ad = p["socketAddress"].toDouble(-1);
                if (ad <= 0 || ad >= 65535 || ad != int(ad))
                    fail("addr", QString("a client is announced with the reserved address %1").arg(ad));
                if (byAddr.contains(int(ad)))
                    fail("addr", QString("address %1 is announced for a new client while another connected client has it (%2 clients connected, %3 registered so far)").arg(ad).arg(byAddr.size()).arg(registered));
                k->addr = int(ad);
                byAddr.insert(k->addr, k);
                if (k->addr < lastAddr)
                    wraps++;
                lastAddr = k->addr;
                waitConnected--;
            } else if (n == "TunnelProxy.ClientDisconnected") {
                int ad = p["socketAddress"].toInt(-1);
                Cl *k = byAddr.value(ad);
                if (!k || !k->leaving)
                    fail("addr", QString("ClientDisconnected for address %1, which %2").arg(ad).arg(k ? "belongs to a client that is still connected" : "no client has"));
                byAddr.remove(ad);
                byUuid.remove(k->uuid);
                waitGone--;
                for (auto it = all.begin(); it != all.end(); ++it) {
                    if (it->get() == k) {
                        all.erase(it);
                        break;
                    }
                }
            }
        }
    }

    void wait(const char *what, const std::function<bool()> &done)
    {
        double t0 = vclock::realSecs();
        int n = 0;
        while (!done()) {
            pump();
            c.beat();
            if (++n > 200)
                usleep(100);
            if (vclock::realSecs() - t0 > 5)
                c.abandon(std::string("foreign:no-") + what);
        }
    }

    void start()
    {
        SutOptions o;
        o.wantTcp = o.wantWs = false;
        o.inactiveTimeout = 100000000;
        sut.start(o);
        server = std::make_unique<Peer>(Tr::Unix, false);
        if (!server->open(sut.unixPath, 0))
            c.abandon("foreign:connect");
        server->send("{\"id\":1,\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"s\",\"serverUuid\":\"" + serverUuid.toByteArray() + "\"}}\n");
        double t0 = vclock::realSecs();
        while (!server->in.contains('\n')) {
            Sut::spin();
            server->io();
            if (vclock::realSecs() - t0 > 3)
                c.abandon("foreign:no-registration");
        }
        server->in.clear();
    }

    // registers n clients, returns them
    std::vector<Cl *> join(int n)
    {
        std::vector<Cl *> v;
        for (int i = 0; i < n; i++) {
            auto k = std::make_unique<Cl>();
            k->uuid = QUuid(uint(nextUuid++), 7, 0x4000, 0x80, 0, 0, 0, 0, 0, 0, 1);
            k->p = std::make_unique<Peer>(Tr::Unix, false);
            for (int tries = 0; !k->p->open(sut.unixPath, 0); tries++) {
                pump();
                if (tries > 500)
                    c.abandon("foreign:connect");
                k->p = std::make_unique<Peer>(Tr::Unix, false);
            }
            k->p->send("{\"id\":1,\"method\":\"TunnelProxy.RegisterClient\",\"params\":{\"clientName\":\"c\",\"clientUuid\":\"" + k->uuid.toByteArray() + "\",\"serverUuid\":\"" + serverUuid.toByteArray() + "\"}}\n");
            byUuid.insert(k->uuid, k.get());
            v.push_back(k.get());
            all.push_back(std::move(k));
            waitConnected++;
            registered++;
            pump();
        }
        wait("connect", [&]() { return waitConnected == 0; });
        for (Cl *k : v) {
            wait("reply", [&]() { k->p->io(); return k->p->in.contains('\n'); });
            k->p->in.clear();
        }
        return v;
    }

    void leave(const std::vector<Cl *> &v)
    {
        for (Cl *k : v) {
            k->leaving = true;
            waitGone++;
            k->p->close();
        }
        wait("disconnect", [&]() { return waitGone == 0; });
    }

    // data to every connected client and back
    void talk(int max)
    {
        std::vector<Cl *> v;
        for (auto &k : all)
            v.push_back(k.get());
        while (int(v.size()) > max)
            v.erase(v.begin() + long(s.draw(v.size())));
        QByteArray out;
        for (Cl *k : v) {
            QByteArray d = "to " + QByteArray::number(k->addr) + k->uuid.toByteArray();
            k->expect += d;
            out += World::slipFrame(quint16(k->addr), d);
            k->p->send("from " + k->uuid.toByteArray());
        }
        server->send(out);
        double t0 = vclock::realSecs();
        for (;;) {
            pump();
            bool ok = true;
            for (auto &k : all) {
                k->p->io();
                if (k->p->in.size() < k->expect.size())
                    ok = false;
                else if (k->p->in != k->expect)
                    fail("data", QString("the client with address %1 received %2 instead of %3").arg(k->addr).arg(hexs(k->p->in), hexs(k->expect)));
            }
            for (Cl *k : v) {
                QByteArray want = "from " + k->uuid.toByteArray(), got = fromClients.value(k->addr);
                if (got.size() < want.size())
                    ok = false;
                else if (got != want)
                    fail("data", QString("data from address %1 is %2, but that client sent %3").arg(k->addr).arg(hexs(got), hexs(want)));
            }
            if (ok)
                break;
            if (vclock::realSecs() - t0 > 2) {
                for (auto &k : all) {
                    if (k->p->in != k->expect)
                        fail("data", QString("data for address %1 has not arrived: %2 instead of %3").arg(k->addr).arg(hexs(k->p->in), hexs(k->expect)));
                }
                fail("data", "data of a client has not arrived under its address");
            }
        }
        for (auto &k : all) {
            k->p->in.clear();
            k->expect.clear();
        }
        fromClients.clear();
        delivered += long(v.size());
    }

    std::vector<Cl *> some(int percent)
    {
        std::vector<Cl *> v;
        for (auto &k : all) {
            if (s.chance(percent, 100))
                v.push_back(k.get());
        }
        return v;
    }

    // clients come and go until the counter is near 'target'
    void churnTo(int target)
    {
        long guard = 0;
        while (lastAddr < target && guard++ < 3000) {
            int n = std::min(60, target - lastAddr);
            long w = wraps;
            leave(join(n));
            if (wraps != w)
                break;
        }
    }
};

void deep(Src &s, Ctx &c, int keep, int rounds)
{
    Town t(s, c);
    t.start();
    std::vector<Cl *> v = t.join(keep);
    if (s.chance(1, 2)) {
        auto drop = t.some(s.pick<int>({2, 10, 50}));
        t.leave(drop);
    }
    c.trace(QString("%1 clients stay connected").arg(t.byAddr.size()));
    for (int r = 0; r < rounds; r++) {
        int before = 65534 - int(s.draw(30));
        t.churnTo(before);
        c.trace(QString("counter at %1 after %2 registrations").arg(t.lastAddr).arg(t.registered));
        // clients that sit at the very end of the range, and new ones behind the wrap
        for (int i = 0; i < 3 + int(s.draw(3)); i++) {
            Span sp(s);
            int n = s.range(10, 60);
            t.join(n);
            c.trace(QString("%1 more, last address %2, %3 connected").arg(n).arg(t.lastAddr).arg(t.byAddr.size()));
            if (s.chance(1, 2)) {
                t.talk(400);
                auto d = t.some(s.pick<int>({5, 30, 70}));
                c.trace(QString("%1 leave").arg(d.size()));
                t.leave(d);
            }
        }
        t.talk(1000);
    }
    c.label("wrapped counters", t.wraps);
    c.label("registrations", t.registered);
    c.label("clients with data checked", t.delivered);
    if (t.wraps)
        c.nontrivial();
}

void run(Src &s, Ctx &c)
{
    if (s.draw(400) >= (c.tier == "thorough" ? 396u : 391u)) {
        deep(s, c, s.range(100, 250), c.tier == "thorough" ? s.range(1, 3) : 1);
        return;
    }
    Town t(s, c);
    t.start();
    int n = s.range(4, 30);
    int left = 0;
    for (int i = 0; i < n; i++) {
        Span sp(s);
        switch (s.weighted({5, 3, 2})) {
        case 0: {
            int k = s.chance(1, 8) ? s.range(20, 130) : s.range(1, 10);
            if (t.all.size() > 300)
                break;
            t.join(k);
            c.trace(QString("%1 join, %2 connected, last address %3").arg(k).arg(t.byAddr.size()).arg(t.lastAddr));
            break;
        }
        case 1: {
            auto d = t.some(s.pick<int>({20, 50, 90}));
            t.leave(d);
            left += int(d.size());
            c.trace(QString("%1 leave").arg(d.size()));
            break;
        }
        default:
            t.talk(200);
            c.trace("data in both directions");
            break;
        }
    }
    t.talk(500);
    c.label("registrations", t.registered);
    c.label("clients with data checked", t.delivered);
    if (t.registered >= 4 && left)
        c.nontrivial();
}

long enumerate(Ctx &c)
{
    Src s(0x5eed, nullptr);
    deep(s, c, 180, 1);
    return 1;
}
}

Property makeProperty()
{
    Property p;
    p.id = "C05";
    p.rule = "a history of clients that join and leave one server in groups, with data to and from every address; about one case in 45 (and one fixed case) keeps 100 to 250 clients connected while enough others come and go to use up the 16-bit address space. Non-trivial: clients left and others joined, or the counter wrapped. Distinct by the history.";
    p.run = run;
    p.enumerate = enumerate;
    p.quickCases = 320;
    p.thoroughCases = 2400;
    p.caseCpuLimit = 300;
    return p;
}
