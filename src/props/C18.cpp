// C18: the client library's tunnel server against a scripted proxy.
#include "fakeproxy.h"
#include "sut.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "vclock.h"
#include "world.h"
#include <QHostAddress>
#include <QJsonDocument>
#include <QJsonObject>
#include <QPointer>

typedef remoteproxyclient::TunnelProxySocketServer TS;
typedef remoteproxyclient::TunnelProxySocket Sock;

namespace {
int commonPrefix(const QByteArray &a, const QByteArray &b)
{
    int i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    return i;
}

// one announced client, from its ClientConnected to its ClientDisconnected
struct Gen {
    quint16 addr;
    QUuid uuid;
    QString name, peer;
    QByteArray want;          // sent by the proxy
    bool wantGone = false;
    // observed
    QPointer<Sock> sock;
    QByteArray got;
    int changed = 0, disconnectedSig = 0, serverSig = 0;
    bool asked = false;       // disconnectSocket() was called
};

struct Sess {
    Src &s;
    Ctx &c;
    bool tls;
    FakeProxy proxy;
    QUuid serverUuid;
    QString serverName;
    QUrl url;
    std::unique_ptr<TS> ts;
    std::vector<std::unique_ptr<Gen>> gens; // all ever announced, in order
    size_t seen = 0;                        // clientConnected signals so far
    bool enabled = false;
    bool running = false;
    int ups = 0, downs = 0, expectUps = 0;
    int notification = 0;
    qint64 lastSent = 0;                    // virtual time of the library's last byte
    size_t linksBefore = 0;
    // reactions inside handlers
    int stopIn = 0;                         // 1 dataReceived, 2 clientConnected, 3 clientDisconnected: stopServer()
    bool stopped = false;
    bool greet = false;
    int lossErrors = 0, refusalErrors = 0;  // errors of the server which were reported
    bool strict = false;                    // the user does not ignore certificate errors
    int certErrors = 0, distrusts = 0;
    bool startIn = false;                   // startServer() in runningChanged(false)
    // bytes from the library, decoded
    QByteArray raw;
    std::vector<std::pair<quint16, QByteArray>> frames;
    std::vector<std::pair<quint16, QByteArray>> wantFrames; // written by the user
    size_t matched = 0;
    std::vector<QJsonObject> asks;          // control requests not answered yet
    int pings = 0, disconnectAsks = 0, wantDisconnectAsks = 0;
    int cycles = 0, tunnels = 0, refusals = 0, clients = 0, bad = 0, losses = 0, reconnects = 0, datas = 0, writes = 0, fused = 0, stops = 0;

    Sess(Src &src, Ctx &ctx, bool e) : s(src), c(ctx), tls(e), proxy(Tr::Tcp, e) {}
    [[noreturn]] void fail(const std::string &cat, const QString &m) { c.fail(cat, m + "\nhistory:\n" + c.traceText.right(5000)); }
    Link *link() { return proxy.links.back().get(); }

    void stopNow()
    {
        stopIn = 0;
        stopped = true;
        enabled = false;
        ts->stopServer();
    }
    void create()
    {
        ts = std::make_unique<TS>(serverUuid, serverName, TS::ConnectionTypeTcpSocket);
        TS *t = ts.get();
        QObject::connect(t, &TS::sslErrors, t, [this, t](const QList<QSslError> &) {
            certErrors++;
            if (!strict)
                t->ignoreSslErrors();
        });
        QObject::connect(t, &TS::errorOccurred, t, [this, t](QAbstractSocket::SocketError e) {
            if (t->error() != e)
                fail("lib-error", QString("errorOccurred(%1) while error() is %2").arg(e).arg(t->error()));
        });
        QObject::connect(t, &TS::serverErrorOccurred, t, [this, t](TS::Error e) {
            if (t->serverError() != e || e == TS::ErrorNoError)
                fail("lib-error", QString("serverErrorOccurred(%1) while serverError() is %2").arg(e).arg(t->serverError()));
            (e == TS::ErrorNotConnected ? lossErrors : refusalErrors)++;
        });
        QObject::connect(t, &TS::runningChanged, t, [this, t](bool v) {
            if (v == running)
                fail("lib-signal", QString("runningChanged(%1) twice").arg(v));
            running = v;
            (v ? ups : downs)++;
            if (v != t->running())
                fail("lib-signal", QString("runningChanged(%1) while running() is %2").arg(v).arg(t->running()));
            if (!v && startIn) {
                startIn = false;
                enabled = true;
                t->startServer(url);
            }
        });
        QObject::connect(t, &TS::clientConnected, t, [this](Sock *k) {
            if (seen >= gens.size())
                fail("lib-clients", QString("a client with address %1 is announced that the proxy never announced").arg(k->socketAddress()));
            Gen *g = gens[seen++].get();
            g->sock = k;
            if (k->socketAddress() != g->addr || k->clientUuid() != g->uuid || k->clientName() != g->name || k->clientPeerAddress() != QHostAddress(g->peer))
                fail("lib-clients", QString("client %1 '%2' %3 %4 is announced, the proxy announced %5 '%6' %7 %8").arg(k->socketAddress()).arg(k->clientName(), k->clientUuid().toString(), k->clientPeerAddress().toString()).arg(g->addr).arg(g->name, g->uuid.toString(), g->peer));
            if (!k->connected())
                fail("lib-clients", "the announced socket is not connected");
            QObject::connect(k, &Sock::dataReceived, k, [this, g](const QByteArray &d) {
                g->got += d;
                if (g->disconnectedSig)
                    fail("lib-data", QString("data on the disconnected socket %1").arg(g->addr));
                if (stopIn == 1)
                    stopNow();
            });
            QObject::connect(k, &Sock::connectedChanged, k, [this, g](bool v) {
                if (v || g->changed++)
                    fail("lib-clients", QString("connectedChanged(%1) of socket %2, number %3").arg(v).arg(g->addr).arg(g->changed));
            });
            QObject::connect(k, &Sock::disconnected, k, [this, g, k]() {
                if (g->disconnectedSig++ || k->connected())
                    fail("lib-clients", QString("disconnected() of socket %1 number %2, connected() is %3").arg(g->addr).arg(g->disconnectedSig).arg(k->connected()));
            });
            if (greet) {
                QByteArray d = "hello " + QByteArray::number(g->addr) + QByteArray("\xc0\xdb", 2);
                wantFrames.push_back({g->addr, d});
                k->writeData(d);
            }
            if (stopIn == 2)
                stopNow();
        });
        QObject::connect(t, &TS::clientDisconnected, t, [this](Sock *k) {
            for (auto &g : gens) {
                if (g->sock == k) {
                    if (g->serverSig++)
                        fail("lib-clients", QString("clientDisconnected for socket %1 twice").arg(g->addr));
                    if (stopIn == 3)
                        stopNow();
                    return;
                }
            }
            fail("lib-clients", "clientDisconnected with an unknown socket");
        });
    }

    bool round()
    {
        Sut::spin();
        bool moved = proxy.io();
        return moved;
    }
    void idle()
    {
        double t0 = vclock::realSecs();
        int n = 0;
        while (n < 6 && vclock::realSecs() - t0 < 10) {
            bool moved = round();
            for (auto &l : proxy.links)
                moved |= !l->idle() && !l->paused;
            n = moved ? 0 : n + 1;
        }
        c.beat();
        check();
    }
    template<class F> void wait(F cond, const QString &what)
    {
        double t0 = vclock::realSecs();
        while (!cond()) {
            round();
            check();
            c.beat();
            if (vclock::realSecs() - t0 > 8)
                fail("lib-stall", what);
        }
        check();
    }

    void check()
    {
        if (ts && running != ts->running())
            fail("lib-signal", QString("running() is %1, the last runningChanged said %2").arg(ts->running()).arg(running));
        if (ups > expectUps)
            fail("lib-signal", "running without a successful registration");
        for (auto &g : gens) {
            if (!g->want.startsWith(g->got)) {
                int k = commonPrefix(g->got, g->want);
                fail("lib-data", QString("socket %1: after %2 right bytes %3 is delivered, the proxy sent %4").arg(g->addr).arg(k).arg(hexs(g->got.mid(k), 40), hexs(g->want.mid(k), 40)));
            }
            if ((g->disconnectedSig || g->serverSig) && !g->wantGone)
                fail("lib-clients", QString("socket %1 is reported disconnected without a reason").arg(g->addr));
        }
        if (proxy.links.empty() || !tunnelUp)
            return;
        // the library's frames
        if (!link()->in.isEmpty())
            lastSent = vclock::nowMs();
        raw += link()->in;
        link()->in.clear();
        int e;
        while ((e = raw.indexOf('\xc0')) >= 0) {
            QByteArray f = raw.left(e), d;
            raw.remove(0, e + 1);
            if (f.isEmpty())
                continue;
            for (int i = 0; i < f.size(); i++) {
                if (f[i] != '\xdb') {
                    d += f[i];
                } else if (i + 1 < f.size() && (f[i + 1] == '\xdc' || f[i + 1] == '\xdd')) {
                    d += f[++i] == '\xdc' ? '\xc0' : '\xdb';
                } else {
                    fail("lib-write", "the library sends a bad frame " + hexs(f));
                }
            }
            if (d.size() < 2)
                fail("lib-write", "the library sends a short frame " + hexs(f));
            quint16 a = quint16(quint8(d[0]) << 8 | quint8(d[1]));
            d = d.mid(2);
            if (a) {
                frames.push_back({a, d});
                continue;
            }
            QJsonObject q = QJsonDocument::fromJson(d).object();
            QString m = q["method"].toString();
            if (!d.endsWith('\n') || !q["id"].isDouble())
                fail("lib-request", "bad control request " + QString::fromUtf8(d));
            if (m == "TunnelProxy.Ping") {
                pings++;
                if (!q["params"].toObject()["timestamp"].isDouble())
                    fail("lib-request", "bad ping " + QString::fromUtf8(d));
            } else if (m == "TunnelProxy.DisconnectClient") {
                disconnectAsks++;
                int a = q["params"].toObject()["socketAddress"].toInt(-1);
                bool known = false;
                for (auto &g : gens)
                    known |= g->addr == a && g->asked;
                if (!known)
                    fail("lib-request", "asks to disconnect another client: " + QString::fromUtf8(d));
            } else {
                fail("lib-request", "unexpected request " + QString::fromUtf8(d));
            }
            for (const QJsonObject &o : asks) {
                if (o["id"] == q["id"])
                    fail("lib-request", "the request " + QString::fromUtf8(d) + " has the id of one which is not answered yet: " + QString::fromUtf8(QJsonDocument(o).toJson(QJsonDocument::Compact)));
            }
            asks.push_back(q);
        }
        for (size_t i = matched; i < frames.size(); i++, matched++) {
            if (i >= wantFrames.size() || frames[i] != wantFrames[i])
                fail("lib-write", QString("frame %1 from the library is for %2: %3, expected %4").arg(i).arg(frames[i].first).arg(hexs(frames[i].second), i < wantFrames.size() ? QString("for %1: %2").arg(wantFrames[i].first).arg(hexs(wantFrames[i].second)) : "none"));
        }
    }
    bool tunnelUp = false;

    // everything the proxy has sent is reported, everything the user wrote has arrived
    void settle(const QString &what)
    {
        auto pending = [&]() -> QString {
            if (seen != gens.size())
                return QString("%1 of %2 clients are announced").arg(seen).arg(gens.size());
            for (auto &g : gens) {
                if (g->got.size() != g->want.size())
                    return QString("socket %1 has %2 of %3 bytes").arg(g->addr).arg(g->got.size()).arg(g->want.size());
                if (g->wantGone && (!g->disconnectedSig || !g->serverSig || !g->changed))
                    return QString("the disconnect of socket %1 is not reported").arg(g->addr);
            }
            if (tunnelUp && (matched != wantFrames.size()))
                return QString("%1 of %2 written frames have arrived").arg(matched).arg(wantFrames.size());
            if (tunnelUp && disconnectAsks != wantDisconnectAsks)
                return QString("%1 of %2 DisconnectClient requests have arrived").arg(disconnectAsks).arg(wantDisconnectAsks);
            return QString();
        };
        double t0 = vclock::realSecs();
        QString p;
        while (!(p = pending()).isEmpty()) {
            round();
            check();
            c.beat();
            if (tunnelUp && link()->closed() && !link()->gone())
                fail("lib-state", "the library closes the connection: " + what);
            if (vclock::realSecs() - t0 > 8)
                fail("lib-stall", p + " after: " + what);
        }
        idle();
        if (tunnelUp && !running)
            fail("lib-state", "not running any more after: " + what);
    }

    static QByteArray line(const QJsonObject &o) { return QJsonDocument(o).toJson(QJsonDocument::Compact) + "\n"; }
    QByteArray control(const QJsonObject &o) { return World::slipFrame(0, line(o)); }
    void deliver(const QByteArray &all, const std::vector<int> &hot, int maxCuts)
    {
        std::vector<int> cuts;
        for (int i = s.range(0, maxCuts); i > 0 && all.size() > 1; i--)
            cuts.push_back(!hot.empty() && s.chance(1, 2) ? s.pick(hot) : s.range(1, all.size() - 1));
        std::sort(cuts.begin(), cuts.end());
        int pos = 0;
        for (int k : cuts) {
            if (k <= pos || k >= all.size())
                continue;
            link()->send(all.mid(pos, k - pos));
            idle();
            pos = k;
        }
        link()->send(all.mid(pos));
    }
    static std::vector<int> hotCuts(const QByteArray &d)
    {
        std::vector<int> h;
        for (int i = 0; i < d.size() - 1; i++) {
            char ch = d[i];
            if (ch == '}' || ch == '\n' || ch == '\xc0' || ch == '\xdb')
                h.push_back(i + 1);
        }
        return h;
    }

    std::vector<Gen *> live()
    {
        std::vector<Gen *> v;
        for (auto &g : gens) {
            if (!g->wantGone)
                v.push_back(g.get());
        }
        return v;
    }
    QString text()
    {
        QString t = s.chance(1, 2) ? QString("client") : s.unicode(30);
        if (s.chance(1, 5))
            t += s.pick<QString>({"}", "}\n{", "\"}", "\\", "\xc0"});
        return t;
    }
    QByteArray notif(const char *m, const QJsonObject &p)
    {
        QJsonObject o;
        o["id"] = notification;
        notification += s.chance(1, 10) ? 5 : 1;
        o["notification"] = m;
        o["params"] = p;
        return control(o);
    }
    QByteArray announce()
    {
        auto g = std::make_unique<Gen>();
        std::vector<int> used;
        for (Gen *x : live())
            used.push_back(x->addr);
        do {
            g->addr = quint16(s.pick<int>({1, 2, 3, 4, 0xc0, 0xc0c0, 0xdbdb, 0xdbdc, 0xc000, 0xffff, 0x8000, 0}));
            if (!g->addr)
                g->addr = quint16(s.range(1, 65535));
        } while (std::count(used.begin(), used.end(), g->addr));
        g->uuid = QUuid(uint(s.draw(0x7fffffff)), 0x77, 0x4abc, 0x80, 1, 2, 3, 4, 5, 6, 7);
        // a client which was there before comes back
        std::vector<Gen *> past;
        for (auto &x : gens) {
            bool there = false;
            for (Gen *y : live())
                there |= y->uuid == x->uuid;
            if (x->wantGone && !there)
                past.push_back(x.get());
        }
        if (!past.empty() && s.chance(1, 3))
            g->uuid = s.chance(1, 2) ? past.back()->uuid : s.pick(past)->uuid;
        g->name = text();
        g->peer = s.pick<QString>({"127.0.0.1", "10.1.2.3", "::1", "fe80::1234", ""});
        QJsonObject p;
        p["clientName"] = g->name;
        p["clientUuid"] = s.chance(1, 2) ? g->uuid.toString() : g->uuid.toString(QUuid::WithoutBraces);
        p["clientPeerAddress"] = g->peer;
        p["socketAddress"] = g->addr;
        c.trace(QString("client %1 '%2' connects").arg(g->addr).arg(g->name));
        gens.push_back(std::move(g));
        clients++;
        return notif("TunnelProxy.ClientConnected", p);
    }
    QByteArray leave(Gen *g)
    {
        g->wantGone = true;
        QJsonObject p;
        p["socketAddress"] = g->addr;
        c.trace(QString("client %1 leaves").arg(g->addr));
        return notif("TunnelProxy.ClientDisconnected", p);
    }
    QByteArray data(Gen *g, int max)
    {
        QByteArray d = s.payload(max);
        if (d.isEmpty())
            d = "x";
        g->want += d;
        datas++;
        c.trace(QString("data for %1: %2").arg(g->addr).arg(hexs(d, 20)));
        return World::slipFrame(g->addr, d);
    }
    QByteArray badFrame()
    {
        bad++;
        c.trace("bad frame");
        switch (s.draw(5)) {
        case 0: { // an address nobody has
            quint16 a = 0;
            do {
                a = quint16(s.range(1, 65535));
            } while ([&]() { for (Gen *g : live()) { if (g->addr == a) return true; } return false; }());
            return World::slipFrame(a, s.payload(60));
        }
        case 1: return QByteArray("\x01\xdb\x01" "abc\xc0", 7);
        case 2: return QByteArray("\x05\xc0", 2);
        case 3: return QByteArray("\xc0\xc0", 2);
        default: return World::slipFrame(0, "{\"id\":7,\"notification\":\"TunnelProxy.SomethingElse\",\"params\":{\"a\":{}}}\n");
        }
    }
    // answers to pending requests
    QByteArray answer()
    {
        if (asks.empty())
            return QByteArray();
        QJsonObject q = asks.front();
        asks.erase(asks.begin());
        QJsonObject o;
        o["id"] = q["id"];
        o["status"] = "success";
        QJsonObject p;
        QByteArray before, after;
        if (q["method"].toString() == "TunnelProxy.Ping") {
            p["timestamp"] = q["params"].toObject()["timestamp"];
            c.trace("answer a ping");
        } else {
            int a = q["params"].toObject()["socketAddress"].toInt();
            Gen *g = nullptr;
            for (Gen *x : live()) {
                if (x->addr == a && x->asked)
                    g = x;
            }
            bool ok = g && !s.chance(1, 10);
            p["tunnelProxyError"] = ok ? "TunnelProxyErrorNoError" : "TunnelProxyErrorUnknownSocketAddress";
            c.trace(QString("answer DisconnectClient %1 with %2").arg(a).arg(p["tunnelProxyError"].toString()));
            if (ok)
                (s.chance(1, 2) ? before : after) = leave(g);
        }
        o["params"] = p;
        return before + control(o) + after;
    }
    QByteArray burst(int n, int max)
    {
        QByteArray all;
        for (; n > 0; n--) {
            std::vector<Gen *> l = live();
            int k = s.weighted({l.empty() ? 0 : 6, l.size() < 6 ? 3 : 0, l.empty() ? 0 : 1, 1, asks.empty() ? 0 : 3});
            if (k == 0)
                all += data(s.pick(l), max);
            else if (k == 1)
                all += announce();
            else if (k == 2)
                all += leave(s.pick(l));
            else if (k == 3)
                all += badFrame();
            else
                all += answer();
            if (s.chance(1, 8))
                all += '\xc0'; // some senders start frames with END
        }
        return all;
    }

    void lost()
    {
        tunnelUp = false;
        for (auto &g : gens)
            g->wantGone = true;
        raw.clear();
        asks.clear();
        frames.clear();
        wantFrames.clear();
        matched = 0;
        disconnectAsks = wantDisconnectAsks = 0;
    }
    void allGone()
    {
        for (auto &g : gens)
            g->wantGone = true;
    }
    // unannounced and undelivered things are forgiven when the connection broke under them
    void forgive()
    {
        while (gens.size() > seen)
            gens.pop_back();
        for (auto &g : gens)
            g->want = g->got;
    }

    void expectDown(bool linkByUs, bool exact)
    {
        if (!linkByUs)
            wait([&]() { return link()->closed(); }, "the library does not close the connection");
        wait([&]() { return ts->state() == TS::StateDisconnected; }, "the state does not become disconnected");
        if (!exact) {
            idle();
            forgive();
        }
        lost();
        settle("the connection is gone");
        if (ts->state() != TS::StateDisconnected || ts->running())
            fail("lib-state", "not disconnected any more");
        if (ups != downs)
            fail("lib-signal", QString("%1 times running, %2 times not").arg(ups).arg(downs));
        if (!ts->remoteProxyServerName().isEmpty() || !ts->remoteProxyServer().isEmpty() || !ts->remoteProxyServerVersion().isEmpty() || !ts->remoteProxyApiVersion().isEmpty())
            fail("lib-state", "still reports a proxy while disconnected");
        losses++;
    }

    // a new connection, by the library itself or after startServer()
    bool connectAgain()
    {
        if (!enabled) {
            size_t before = proxy.links.size();
            if (s.chance(1, 2)) {
                for (int i = 0; i < 4; i++) {
                    vclock::advanceMs(s.range(1000, 20000));
                    idle();
                }
                if (proxy.links.size() != before || ts->state() != TS::StateDisconnected)
                    fail("lib-reconnect", "the stopped server connects again");
            }
            if (s.chance(1, 8) && ts->startServer(QUrl()))
                fail("lib-state", "startServer with an empty URL succeeds");
            linksBefore = before;
            c.trace("startServer");
            enabled = true;
            if (!ts->startServer(url))
                fail("lib-state", "startServer fails");
            return true;
        }
        // within the reconnect interval, also when nobody listens for a while
        int misses = s.weighted({6, 2, 1});
        linksBefore = proxy.links.size();
        if (misses) {
            int port = proxy.port();
            proxy.stop();
            for (int i = 0; i < misses; i++) {
                c.trace("nobody listens for 6 s");
                for (int k = 0; k < 6; k++) {
                    vclock::advanceMs(1000);
                    idle();
                }
                if (ts->error() != QAbstractSocket::ConnectionRefusedError)
                    fail("lib-error", QString("nobody listens, but error() is %1").arg(ts->error()));
            }
            if (!proxy.listen(port))
                c.abandon("port-lost");
        }
        c.trace("wait for the reconnect");
        for (int k = 0; k < 12 && proxy.links.size() == linksBefore; k++) {
            vclock::advanceMs(500);
            idle();
        }
        if (proxy.links.size() == linksBefore)
            fail("lib-reconnect", "the server does not connect again within 6 seconds");
        reconnects++;
        return true;
    }

    QJsonObject request(const QString &method)
    {
        wait([&]() { return link()->in.contains('\n') || link()->closed(); }, "no " + method + " request arrives");
        int p = link()->in.indexOf('\n');
        if (p < 0)
            fail("lib-request", "the library closes instead of sending " + method);
        QJsonDocument d = QJsonDocument::fromJson(link()->in.left(p));
        if (!d.isObject() || d.object()["method"].toString() != method || !d.object()["id"].isDouble())
            fail("lib-request", "instead of " + method + " the library sends " + QString::fromUtf8(link()->in.left(p)));
        if (link()->in.size() != p + 1)
            fail("lib-request", "more than the " + method + " request: " + hexs(link()->in));
        link()->in.clear();
        return d.object();
    }

    bool handshake()
    {
        wait([&]() { return proxy.links.size() > linksBefore && (link()->ready() || link()->closed()); }, "the library does not connect");
        if (proxy.links.size() != linksBefore + 1)
            fail("lib-state", "connects twice");
        for (int phase = 0; phase < 2; phase++) {
            QJsonObject q = request(phase ? "TunnelProxy.RegisterServer" : "RemoteProxy.Hello");
            if (phase) {
                QJsonObject p = q["params"].toObject();
                if (QUuid(p["serverUuid"].toString()) != serverUuid || p["serverName"].toString() != serverName || p.size() != 2)
                    fail("lib-request", "registers with " + QString::fromUtf8(line(q)));
            }
            if (ts->running())
                fail("lib-state", "running before the registration is answered");
            int how = s.weighted({20, 1, 1, 1, 1, 1});
            QJsonObject o, par;
            o["id"] = q["id"];
            o["status"] = "success";
            QString f[4];
            if (phase == 0) {
                const char *k[4] = {"server", "name", "version", "apiVersion"};
                for (int i = 0; i < 4; i++) {
                    f[i] = text();
                    par[k[i]] = f[i];
                }
            } else {
                par["tunnelProxyError"] = "TunnelProxyErrorNoError";
            }
            bool ok = true;
            if (how == 1) {
                ok = false;
                o["status"] = "error";
                o["error"] = text();
                c.trace(QString("phase %1: answer with an error").arg(phase));
            } else if (how == 2 && phase) {
                ok = false;
                par["tunnelProxyError"] = s.pick<QString>({"TunnelProxyErrorAlreadyRegistered", "TunnelProxyErrorInvalidUuid", "TunnelProxyErrorInternalServerError"});
                c.trace("refuse the registration");
            }
            if (how != 1)
                o["params"] = par;
            QByteArray reply = line(o);
            if (how >= 3) {
                int n = s.range(0, reply.size() - 2);
                if (n) {
                    link()->send(reply.left(n));
                    idle();
                }
                int errors = lossErrors;
                c.trace(QString("phase %1: %2 after %3 of %4 bytes").arg(phase).arg(how == 3 ? "proxy closes" : how == 4 ? "proxy resets" : "user stops").arg(n).arg(reply.size()));
                if (how == 3) {
                    link()->close();
                } else if (how == 4) {
                    link()->reset();
                } else {
                    enabled = false;
                    ts->stopServer();
                }
                refusals++;
                expectDown(how != 5, true);
                if (how != 5 && lossErrors != errors + 1)
                    fail("lib-error", QString("the loss of the connection is reported %1 times as an error").arg(lossErrors - errors));
                return false;
            }
            c.trace(QString("phase %1: reply %2 bytes").arg(phase).arg(reply.size()));
            QByteArray behind;
            std::vector<int> hot = hotCuts(reply);
            hot.push_back(reply.size());
            if (ok && phase) {
                expectUps++;
                greet = s.chance(1, 3);
                if (s.chance(1, 2)) {
                    behind = burst(s.range(1, 5), 200);
                    fused++;
                }
            }
            int errors = refusalErrors;
            deliver(reply + behind, hot, 3);
            if (!ok) {
                bool byUs = s.chance(1, 2);
                if (byUs)
                    link()->close();
                refusals++;
                expectDown(byUs, true);
                if (refusalErrors != errors + 1)
                    fail("lib-error", QString("the refusal is reported %1 times as an error").arg(refusalErrors - errors));
                return false;
            }
            if (phase) {
                wait([&]() { return ts->running(); }, "not running after the successful registration");
                if (ts->state() != TS::StateRunning)
                    fail("lib-state", "running but in another state");
                lastSent = vclock::nowMs();
                tunnelUp = true;
                tunnels++;
                settle("the registration");
                if (ups != expectUps)
                    fail("lib-signal", QString("runningChanged(true) %1 times for %2 registrations").arg(ups).arg(expectUps));
            } else {
                wait([&]() { return link()->in.contains('\n') || link()->closed(); }, "no registration after the Hello reply");
                if (ts->remoteProxyServer() != f[0] || ts->remoteProxyServerName() != f[1] || ts->remoteProxyServerVersion() != f[2] || ts->remoteProxyApiVersion() != f[3])
                    fail("lib-state", "the proxy's server, name or versions are not the ones in its Hello reply");
            }
        }
        return true;
    }

    // returns true when a new connection is already under way
    bool tunnel()
    {
        for (int i = s.range(0, 10); i > 0; i--) {
            Span sp(s);
            std::vector<Gen *> l = live();
            // the user only has the sockets which were handed out already
            l.erase(std::remove_if(l.begin(), l.end(), [](Gen *g) { return !g->sock; }), l.end());
            int kind = s.weighted({6, l.empty() ? 0 : 5, l.empty() ? 0 : 2, 2, asks.empty() ? 0 : 2});
            int max = s.chance(1, 20) ? (s.chance(1, 4) ? 800000 : 60000) : 600;
            switch (kind) {
            case 0: {
                QByteArray b = burst(s.weighted({4, 2, 1, 1}) + 1 + (s.chance(1, 10) ? 20 : 0), max);
                deliver(b, hotCuts(b), 3);
                break;
            }
            case 1: {
                for (int n = s.range(1, 5); n > 0; n--) {
                    Gen *g = s.pick(l);
                    QByteArray d = s.payload(max);
                    c.trace(QString("write to %1: %2").arg(g->addr).arg(hexs(d, 20)));
                    wantFrames.push_back({g->addr, d});
                    g->sock->writeData(d);
                    writes++;
                    if (s.chance(1, 3))
                        round();
                }
                break;
            }
            case 2:
                for (int n = s.weighted({3, 1, 1}) + 1; n > 0; n--) {
                    Gen *g = s.pick(l);
                    c.trace(QString("disconnectSocket on %1").arg(g->addr));
                    g->asked = true;
                    wantDisconnectAsks++;
                    g->sock->disconnectSocket();
                }
                break;
            case 3: {
                // silence, or the proxy talks and the user does not
                int secs = s.range(1, 100);
                bool talk = s.chance(1, 2);
                int every = s.range(5, 25), k = 0;
                c.trace(QString("%1 s pass%2").arg(secs).arg(talk && !l.empty() ? QString(", data every %1 s").arg(every) : QString()));
                for (int t = 0; t < secs; t++) {
                    vclock::advanceMs(1000);
                    std::vector<Gen *> now = live();
                    if (talk && !now.empty() && ++k % every == 0)
                        link()->send(data(s.pick(now), 20));
                    idle();
                    if (vclock::nowMs() - lastSent > 33000)
                        fail("lib-keepalive", "nothing was sent for 33 seconds, the proxy drops a silent server");
                    if (s.chance(1, 2)) {
                        QByteArray a;
                        while (!asks.empty())
                            a += answer();
                        if (!a.isEmpty())
                            link()->send(a);
                    }
                }
                break;
            }
            default: {
                QByteArray b = answer();
                deliver(b, hotCuts(b), 2);
            }
            }
            if (s.chance(1, 4))
                round();
            else
                settle("operation");
        }
        settle("operations");
        int end = s.weighted({4, 2, 4, 3, 2, 2});
        if (end <= 1) {
            QByteArray b = burst(s.range(0, 4), 300);
            QByteArray cut = s.chance(1, 2) ? World::slipFrame(1, "unfinished").left(s.range(1, 8)) : QByteArray();
            startIn = s.chance(1, 4);
            c.trace(QString("proxy %1 behind %2 bytes and %3 bytes of a frame%4").arg(end ? "resets" : "closes").arg(b.size()).arg(cut.size()).arg(startIn ? ", the user starts again in the handler" : ""));
            bool again = startIn;
            int errors = lossErrors;
            if (b.size() + cut.size())
                link()->send(b + cut);
            size_t before = proxy.links.size();
            allGone();
            if (end)
                link()->reset();
            else
                link()->close();
            if (again) {
                wait([&]() { return downs == ups; }, "the loss is not reported");
                if (end)
                    forgive();
                lost();
                settle("the connection is lost");
                linksBefore = before;
                losses++;
                return true;
            }
            expectDown(true, end == 0);
            if (lossErrors != errors + 1)
                fail("lib-error", QString("the loss of the connection is reported %1 times as an error").arg(lossErrors - errors));
        } else if (end == 2) {
            c.trace("stopServer");
            stops++;
            enabled = false;
            allGone();
            ts->stopServer();
            expectDown(false, true);
        } else if (end == 3) {
            // the user stops inside a handler while more is coming in
            stopIn = s.range(1, 3);
            stopped = false;
            int mode = stopIn;
            c.trace(QString("stopServer inside handler %1").arg(stopIn));
            QByteArray b;
            if (live().empty())
                b += announce();
            if (mode == 1)
                b += data(live()[0], 50);
            else if (mode == 2)
                b += announce();
            else
                b += leave(live()[0]);
            b += burst(s.range(0, 6), 100);
            if (s.chance(1, 2))
                b += control(QJsonObject{{"id", 0}, {"status", "success"}, {"params", QJsonObject()}});
            allGone();
            deliver(b, hotCuts(b), 1);
            wait([&]() { return stopped; }, "the handler is not called");
            stops++;
            tunnelUp = false;
            expectDown(false, false);
        } else if (end == 4) {
            c.trace("startServer again while running");
            Link *old = link();
            linksBefore = proxy.links.size();
            lost();
            if (!ts->startServer(url))
                fail("lib-state", "startServer fails");
            settle("startServer again");
            wait([&]() { return old->closed(); }, "the old connection stays open");
            if (ups != downs)
                fail("lib-signal", "the restart is not reported");
            return true;
        } else {
            c.trace("the object is deleted");
            enabled = false;
            allGone();
            ts.reset();
            running = false;
            downs = ups;
            tunnelUp = false;
            wait([&]() { return link()->closed(); }, "the deleted object's connection stays open");
            lost();
            gens.clear();
            seen = 0;
            idle();
            create();
        }
        return false;
    }

    void run()
    {
        serverUuid = QUuid(uint(s.draw(0x7fffffff)), 0x4321, 0x4abc, 0x80, 1, 2, 3, 4, 5, 6, 7);
        serverName = s.chance(1, 2) ? "server" : s.unicode(40);
        Sut ports(c);
        for (int i = 0;; i++) {
            if (i > 30)
                c.abandon("no-free-port");
            if (proxy.listen(ports.nextPort()))
                break;
        }
        url = QUrl(QString(tls ? "ssl" : "tcp") + "://127.0.0.1:" + QString::number(proxy.port()));
        c.trace(QString("TLS %1").arg(tls));
        create();
        bool again = false;
        int n = s.range(1, 4);
        for (int i = 0; (i < n || again) && i < 9; i++) {
            Span sp(s);
            cycles++;
            if (!again && !enabled && tls && s.chance(1, 4)) {
                // nobody vouches for the proxy's certificate
                c.trace("startServer, the user does not accept the certificate");
                size_t before = proxy.links.size();
                int e0 = certErrors;
                strict = true;
                if (!ts->startServer(url))
                    fail("lib-state", "startServer fails");
                wait([&]() { return ts->state() == TS::StateDisconnected; }, "the state does not become disconnected");
                idle();
                if (certErrors == e0)
                    fail("lib-tls", "the certificate errors are not reported");
                ts->stopServer();
                idle();
                strict = false;
                for (size_t k = before; k < proxy.links.size(); k++) {
                    if (!proxy.links[k]->in.isEmpty())
                        fail("lib-tls", "sends to a proxy with a wrong certificate: " + hexs(proxy.links[k]->in, 60));
                    if (!proxy.links[k]->closed())
                        fail("lib-tls", "keeps the connection to a proxy with a wrong certificate");
                }
                if (ups != downs)
                    fail("lib-tls", "running with a wrong certificate");
                distrusts++;
                continue;
            }
            if (!again)
                connectAgain();
            again = false;
            c.trace(QString("cycle %1").arg(i));
            if (handshake())
                again = tunnel();
        }
        if (!again)
            settle("end");
        ts.reset();
        for (int i = 0; i < 3; i++)
            round();
    }
};

void run(Src &s, Ctx &c)
{
    bool tls = s.chance(1, 10);
    Sess x(s, c, tls);
    x.run();
    c.label("refused certificates", x.distrusts);
    c.label("cycles", x.cycles);
    c.label("tunnels", x.tunnels);
    c.label("refused or cut handshakes", x.refusals);
    c.label("replies with frames behind", x.fused);
    c.label("clients", x.clients);
    c.label("data frames", x.datas);
    c.label("writes", x.writes);
    c.label("bad frames", x.bad);
    c.label("pings", x.pings);
    c.label("lost or stopped connections", x.losses);
    c.label("reconnects by the library", x.reconnects);
    if (x.clients && (x.datas || x.writes))
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C18";
    p.rule = "sessions of one tunnel server object with a scripted proxy over TCP, plain or TLS: 1 to 4 cycles of connecting (by startServer or by the library's own reconnect on a virtual clock), Hello, registration with any outcome at any byte, then bursts of announcements, data frames, departures, bad frames and answers in any chunking (also in the same segment as the registration reply), writes and disconnect requests of the user, minutes of silence or one-way traffic, and an end (close or reset behind unfinished frames, stop, stop or start inside a handler, start while running, deletion); at times the user does not accept the proxy's certificate. Non-trivial: a client was announced and data went in some direction. Distinct by history.";
    p.assumptions = {"the proxy's messages are one line of compact JSON each, as the proxy sends them", "socket addresses are unique among connected clients and not 0", "a stop by the user may drop what is not yet sent"};
    p.run = run;
    p.quickCases = 2000;
    p.thoroughCases = 60000;
    return p;
}
