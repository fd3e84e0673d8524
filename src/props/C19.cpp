// C19: library clients, the proxy and library servers together.
#include "engine.h"
#include "sut.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "vclock.h"
#include <QAbstractEventDispatcher>
#include <QCoreApplication>
#include <QPointer>
#include <linux/sockios.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/ioctl.h>
#include <sys/socket.h>

typedef remoteproxyclient::TunnelProxySocketServer TS;
typedef remoteproxyclient::TunnelProxySocket Sock;
typedef remoteproxyclient::TunnelProxyRemoteConnection RC;

namespace {
int commonPrefix(const QByteArray &a, const QByteArray &b)
{
    int i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    return i;
}

struct Srv {
    int idx;
    QUuid uuid;
    QString name;
    std::unique_ptr<TS> ts;
    bool want = false;    // should be running
    bool running = false; // by its signals
};
// one connection of a client
struct Cli {
    int idx;
    QUuid uuid;
    QString name;
    bool ws;
    std::shared_ptr<RC> rc;
    Srv *srv = nullptr;   // null: a server that is not there
    QPointer<Sock> sock;
    bool over = false;    // it has been ended, on purpose
    bool exact = true;    // everything written before the end has to arrive
    bool left = false;    // the library object has a newer connection
    QByteArray c2s, c2sGot, s2c, s2cGot;
    int up = 0, down = 0, announced = 0, sockGone = 0, srvGone = 0;
};

struct Sess {
    Src &s;
    Ctx &c;
    Sut sut;
    bool tls;
    std::vector<std::unique_ptr<Srv>> srvs;
    std::vector<std::unique_ptr<Cli>> clis;
    int writes = 0, refused = 0, ends = 0, restarts = 0, tunnels = 0, seconds = 0, lasts = 0, bigLasts = 0;

    Sess(Src &src, Ctx &ctx, bool e) : s(src), c(ctx), sut(ctx), tls(e) {}
    [[noreturn]] void fail(const std::string &cat, const QString &m) { c.fail(cat, m + "\nhistory:\n" + c.traceText.right(5000)); }

    // one turn of everything; true if something happened
    bool round()
    {
        bool moved = QCoreApplication::eventDispatcher()->processEvents(QEventLoop::AllEvents);
        QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
        int one = 1;
        for (int fd = 3; fd < 200; fd++) {
            int n = 0;
            if (ioctl(fd, SIOCOUTQ, &n) != 0)
                continue;
            // timing only: no delayed segments between the three parties
            if (setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one) != 0)
                continue;
            setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
            int accepting = 0;
            socklen_t l = sizeof accepting;
            if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &accepting, &l) == 0 && accepting)
                continue;
            moved |= n > 0;
            if (ioctl(fd, FIONREAD, &n) == 0)
                moved |= n > 0;
        }
        return moved;
    }
    void idle()
    {
        double t0 = vclock::realSecs();
        int n = 0;
        while (n < 5 && vclock::realSecs() - t0 < 5)
            n = round() ? 0 : n + 1;
        c.beat();
        check();
    }
    void check()
    {
        for (auto &k : clis) {
            if (!k->c2s.startsWith(k->c2sGot)) {
                int p = commonPrefix(k->c2sGot, k->c2s);
                fail("tunnel-data", QString("client %1 to server: after %2 right bytes %3 arrives, written was %4").arg(k->idx).arg(p).arg(hexs(k->c2sGot.mid(p)), hexs(k->c2s.mid(p))));
            }
            if (!k->s2c.startsWith(k->s2cGot)) {
                int p = commonPrefix(k->s2cGot, k->s2c);
                fail("tunnel-data", QString("server to client %1: after %2 right bytes %3 arrives, written was %4").arg(k->idx).arg(p).arg(hexs(k->s2cGot.mid(p)), hexs(k->s2c.mid(p))));
            }
            if ((k->down || k->sockGone || k->srvGone) && !k->over)
                fail("tunnel-close", QString("the connection of client %1 ends without a reason (client %2, socket %3, server %4)").arg(k->idx).arg(k->down).arg(k->sockGone).arg(k->srvGone));
            if (k->up > 1 || k->down > 1 || k->announced > 1 || k->sockGone > 1 || k->srvGone > 1)
                fail("tunnel-signal", QString("client %1: %2 up, %3 down, %4 announced, %5 socket gone, %6 gone at the server").arg(k->idx).arg(k->up).arg(k->down).arg(k->announced).arg(k->sockGone).arg(k->srvGone));
            if (!k->srv && (k->up || k->announced))
                fail("tunnel-signal", QString("client %1 is connected to a server that is not there").arg(k->idx));
        }
    }
    QString pending()
    {
        for (auto &v : srvs) {
            if (v->want != v->running || v->ts->running() != v->running)
                return QString("server %1 is %2 running").arg(v->idx).arg(v->running ? "" : "not");
        }
        for (auto &k : clis) {
            if (!k->srv) {
                if (k->rc->state() != RC::StateDisconnected && !k->left)
                    return QString("refused client %1 is not disconnected").arg(k->idx);
                continue;
            }
            if (!k->over) {
                if (!k->up || !k->announced)
                    return QString("client %1: connected %2, announced %3").arg(k->idx).arg(k->up).arg(k->announced);
            } else {
                if (k->up != k->down)
                    return QString("the end is not reported to client %1").arg(k->idx);
                if (k->announced && (!k->sockGone || !k->srvGone))
                    return QString("the end of client %1 is not reported at the server").arg(k->idx);
            }
            if (!k->over || k->exact) {
                if (k->c2s.size() != k->c2sGot.size())
                    return QString("%1 of %2 bytes of client %3 arrive").arg(k->c2sGot.size()).arg(k->c2s.size()).arg(k->idx);
                if (k->s2c.size() != k->s2cGot.size())
                    return QString("%1 of %2 bytes for client %3 arrive").arg(k->s2cGot.size()).arg(k->s2c.size()).arg(k->idx);
            }
        }
        return QString();
    }
    void settle(const QString &what)
    {
        double t0 = vclock::realSecs();
        QString p, last;
        while (!(p = pending()).isEmpty()) {
            if (p != last)
                t0 = vclock::realSecs(); // it goes on
            last = p;
            round();
            check();
            c.beat();
            if (vclock::realSecs() - t0 > 6)
                fail("tunnel-stall", p + " after: " + what);
        }
        idle();
        p = pending();
        if (!p.isEmpty())
            fail("tunnel-signal", p + " any more after: " + what);
    }

    Cli *byUuid(const QUuid &u)
    {
        for (auto it = clis.rbegin(); it != clis.rend(); ++it) {
            if ((*it)->uuid == u)
                return it->get();
        }
        return nullptr;
    }

    void addServer()
    {
        auto v = std::make_unique<Srv>();
        v->idx = int(srvs.size());
        v->uuid = QUuid(0x5000 + uint(v->idx), 0x4321, 0x4abc, 0x80, 1, 2, 3, 4, 5, 6, 7);
        v->name = s.unicode(12);
        v->ts = std::make_unique<TS>(v->uuid, v->name, TS::ConnectionTypeTcpSocket);
        Srv *p = v.get();
        TS *t = v->ts.get();
        QObject::connect(t, &TS::sslErrors, t, [t](const QList<QSslError> &) { t->ignoreSslErrors(); });
        QObject::connect(t, &TS::runningChanged, t, [this, p](bool r) {
            if (r == p->running)
                fail("tunnel-signal", QString("server %1: runningChanged(%2) twice").arg(p->idx).arg(r));
            p->running = r;
        });
        QObject::connect(t, &TS::clientConnected, t, [this, p](Sock *k) {
            Cli *x = byUuid(k->clientUuid());
            if (!x || x->srv != p)
                fail("tunnel-signal", QString("server %1 gets the client %2, which did not connect to it").arg(p->idx).arg(k->clientUuid().toString()));
            if (k->clientName() != x->name || !k->connected())
                fail("tunnel-signal", QString("server %1 gets client %2 as '%3', its name is '%4'").arg(p->idx).arg(x->idx).arg(k->clientName(), x->name));
            if (k->clientPeerAddress() != QHostAddress("127.0.0.1") && k->clientPeerAddress() != QHostAddress("::ffff:127.0.0.1"))
                fail("tunnel-signal", "the client's address is " + k->clientPeerAddress().toString());
            for (auto &o : clis) {
                if (o->sock && o.get() != x && o->srv == p && !o->sockGone && o->sock->socketAddress() == k->socketAddress())
                    fail("tunnel-signal", QString("clients %1 and %2 have the same address").arg(o->idx).arg(x->idx));
            }
            x->announced++;
            x->sock = k;
            QObject::connect(k, &Sock::dataReceived, k, [x](const QByteArray &d) { x->c2sGot += d; });
            QObject::connect(k, &Sock::disconnected, k, [x]() { x->sockGone++; });
        });
        QObject::connect(t, &TS::clientDisconnected, t, [this](Sock *k) {
            Cli *x = byUuid(k->clientUuid());
            if (!x || x->sock != k)
                fail("tunnel-signal", "an unknown socket is disconnected");
            x->srvGone++;
        });
        srvs.push_back(std::move(v));
    }
    QUrl tcpUrl() { return QUrl(QString(tls ? "ssl" : "tcp") + "://127.0.0.1:" + QString::number(sut.tcpPort)); }
    QUrl wsUrl() { return QUrl(QString(tls ? "wss" : "ws") + "://127.0.0.1:" + QString::number(sut.wsPort)); }

    std::vector<Srv *> up(bool running)
    {
        std::vector<Srv *> r;
        for (auto &v : srvs) {
            if (v->want == running)
                r.push_back(v.get());
        }
        return r;
    }
    std::vector<Cli *> live()
    {
        std::vector<Cli *> r;
        for (auto &k : clis) {
            if (k->srv && !k->over)
                r.push_back(k.get());
        }
        return r;
    }
    void connectClient(bool stranger)
    {
        std::vector<Srv *> v = up(true);
        auto k = std::make_unique<Cli>();
        k->idx = int(clis.size());
        // a used library object, or a new one
        std::vector<Cli *> old;
        for (auto &o : clis) {
            if (!o->left && (o->over || !o->srv) && o->rc->state() == RC::StateDisconnected)
                old.push_back(o.get());
        }
        if (!old.empty() && s.chance(1, 2)) {
            Cli *o = s.pick(old);
            o->left = true;
            k->rc = o->rc;
            k->uuid = o->uuid;
            k->name = o->name;
            k->ws = o->ws;
        } else {
            k->ws = s.chance(1, 3);
            k->uuid = QUuid(0xc000 + uint(k->idx), 0x1234, 0x4abc, 0x80, 1, 2, 3, 4, 5, 6, 7);
            k->name = s.chance(1, 2) ? "c" : s.unicode(20);
            k->rc = std::make_shared<RC>(k->uuid, k->name, k->ws ? RC::ConnectionTypeWebSocket : RC::ConnectionTypeTcpSocket);
            RC *r = k->rc.get();
            QUuid u = k->uuid;
            QObject::connect(r, &RC::sslErrors, r, [r](const QList<QSslError> &) { r->ignoreSslErrors(); });
            QObject::connect(r, &RC::remoteConnectedChanged, r, [this, u](bool v) {
                Cli *x = byUuid(u);
                (v ? x->up : x->down)++;
            });
            QObject::connect(r, &RC::dataReady, r, [this, u](const QByteArray &d) { byUuid(u)->s2cGot += d; });
        }
        k->srv = stranger || v.empty() ? nullptr : s.pick(v);
        QUuid to = k->srv ? k->srv->uuid : QUuid(0x9999, 0x4321, 0x4abc, 0x80, 1, 2, 3, 4, 5, 6, 7);
        c.trace(QString("client %1 (%2%3) connects to %4").arg(k->idx).arg(k->ws ? "WebSocket" : "TCP").arg(tls ? " TLS" : "").arg(k->srv ? QString("server %1").arg(k->srv->idx) : "nothing"));
        RC *r = k->rc.get();
        QUrl u = k->ws ? wsUrl() : tcpUrl();
        (k->srv ? tunnels : refused)++;
        clis.push_back(std::move(k));
        r->connectServer(u, to);
    }
    void write(Cli *k, int max)
    {
        if (!k->up || !k->announced)
            return;
        QByteArray d = k->ws ? s.utf8Text(max) : s.payload(max);
        if (d.isEmpty())
            d = "e";
        bool toServer = s.chance(1, 2);
        c.trace(QString("%1 client %2: %3").arg(toServer ? "from" : "to").arg(k->idx).arg(hexs(d, 16)));
        writes++;
        if (toServer) {
            k->c2s += d;
            if (!k->rc->sendData(d))
                fail("tunnel-send", QString("sendData of client %1 fails").arg(k->idx));
        } else {
            k->s2c += d;
            k->sock->writeData(d);
        }
    }
    void end(Cli *k, bool exact)
    {
        k->over = true;
        k->exact = exact;
        ends++;
    }

    void op()
    {
        std::vector<Cli *> l = live();
        std::vector<Srv *> on = up(true), off = up(false);
        int max = s.chance(1, 20) ? 100000 : 800;
        bool calm = true;
        switch (s.weighted({l.empty() ? 0 : 12, l.size() < 12 && !on.empty() ? 6 : 0, 1, l.empty() ? 0 : 2, l.empty() ? 0 : 2, on.empty() ? 0 : 1, off.empty() ? 0 : 4, srvs.size() < 4 ? 1 : 0, 1, 1})) {
        case 0:
            for (int n = s.range(1, 8); n > 0; n--) {
                write(s.pick(l), max);
                if (s.chance(1, 4))
                    round();
            }
            calm = s.chance(1, 2);
            break;
        case 1:
            for (int n = s.weighted({5, 2, 1}) + 1; n > 0; n--)
                connectClient(false);
            break;
        case 2: connectClient(true); break;
        case 3: {
            Cli *k = s.pick(l);
            bool ex = s.chance(1, 2);
            if (ex)
                settle("before a disconnect");
            c.trace(QString("client %1 disconnects").arg(k->idx));
            end(k, ex);
            k->rc->disconnectServer();
            break;
        }
        case 4: {
            Cli *k = s.pick(l);
            if (!k->sock)
                break;
            bool ex = s.chance(1, 2);
            if (ex)
                settle("before a disconnect");
            // everything that was written before the end arrives, also more than the system can hold
            if (ex && k->up && k->announced && s.chance(2, 3)) {
                int n = s.weighted({6, 6, 1}), size = n == 0 ? 0 : n == 1 ? 30000 : s.range(3, 12) * 1000000;
                QByteArray d = k->ws ? s.utf8Text(200) : s.payload(200);
                if (d.isEmpty())
                    d = "last";
                QByteArray all = d;
                while (all.size() < size)
                    all += all.size() < 100000 ? all : all.left(100000 / d.size() * d.size());
                c.trace(QString("to client %1: %2 x %3").arg(k->idx).arg(all.size() / d.size()).arg(hexs(d, 16)));
                writes++;
                k->s2c += all;
                for (int pos = 0, part = k->ws ? (20000 / d.size() + 1) * d.size() : s.range(5000, 200000); pos < all.size(); pos += part)
                    k->sock->writeData(all.mid(pos, part));
                lasts++;
                bigLasts += n == 2;
            }
            c.trace(QString("server disconnects client %1").arg(k->idx));
            end(k, ex);
            k->sock->disconnectSocket();
            break;
        }
        case 5: {
            Srv *v = s.pick(on);
            bool ex = s.chance(1, 2);
            if (ex)
                settle("before a stop");
            c.trace(QString("server %1 stops").arg(v->idx));
            for (Cli *k : l) {
                if (k->srv == v)
                    end(k, ex);
            }
            v->want = false;
            v->ts->stopServer();
            break;
        }
        case 6: {
            settle("before a start");
            Srv *v = s.pick(off);
            c.trace(QString("server %1 starts").arg(v->idx));
            v->want = true;
            v->ts->startServer(tcpUrl());
            break;
        }
        case 7: addServer(); break;
        case 8: {
            settle("before time passes");
            int secs = s.chance(1, 3) ? s.range(30, 150) : s.range(1, 20);
            bool talk = s.chance(1, 3);
            Cli *who = l.empty() ? nullptr : s.pick(l);
            c.trace(QString("%1 s pass%2").arg(secs).arg(talk && who ? QString(", with client %1 sending").arg(who->idx) : QString()));
            for (int i = 0; i < secs; i++) {
                if (talk && who && i % 10 == 5) {
                    who->c2s += "tick";
                    who->rc->sendData("tick");
                }
                vclock::advanceMs(1000);
                idle();
                seconds++;
            }
            break;
        }
        default: {
            if (!s.chance(1, 3))
                break;
            settle("before a restart of the proxy");
            c.trace("the proxy restarts");
            restarts++;
            for (Cli *k : l)
                end(k, true);
            std::vector<Srv *> again = on;
            for (auto &v : srvs)
                v->want = false;
            sut.engine()->stop();
            settle("the proxy stops");
            sut.engine()->start(sut.makeConfig(sut.opt));
            for (int i = 0; i < 3; i++)
                round();
            if (!sut.engine()->tcpSocketServerTunnelProxy()->running() || !sut.engine()->webSocketServerTunnelProxy()->running())
                c.abandon("port-lost");
            for (Srv *v : again)
                v->want = true;
            for (int i = 0; i < 14; i++) {
                vclock::advanceMs(500);
                idle();
            }
        }
        }
        if (calm)
            settle("operation");
        else if (s.chance(1, 2))
            round();
    }

    void run()
    {
        SutOptions o;
        o.tls = tls;
        o.name = "p" + QString::number(s.draw(1000));
        sut.start(o);
        int n = s.range(1, 3);
        for (int i = 0; i < n; i++) {
            addServer();
            srvs.back()->want = true;
            srvs.back()->ts->startServer(tcpUrl());
        }
        settle("start");
        for (auto &v : srvs) {
            if (v->ts->remoteProxyServerName() != o.name)
                fail("tunnel-signal", "the proxy's name is " + v->ts->remoteProxyServerName());
        }
        connectClient(false);
        settle("the first client");
        for (int i = s.range(3, 25); i > 0; i--) {
            Span sp(s);
            op();
        }
        settle("end");
        clis.clear();
        srvs.clear();
        for (int i = 0; i < 3; i++)
            round();
        sut.stop();
    }
};

void run(Src &s, Ctx &c)
{
    Sess x(s, c, s.chance(1, 8));
    x.run();
    c.label("tunnels", x.tunnels);
    c.label("refused clients", x.refused);
    c.label("writes", x.writes);
    c.label("ended connections", x.ends);
    c.label("ends right behind data", x.lasts);
    if (x.bigLasts)
        c.label("ends right behind megabytes", x.bigLasts);
    c.label("proxy restarts", x.restarts);
    c.label("seconds passed", x.seconds);
    if (x.writes && x.tunnels)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C19";
    p.rule = "histories over 1 to 4 library servers, up to 12 connected library clients (TCP and WebSocket, plain or TLS) and one proxy, all in one process: connects (new and used objects, to servers that are and are not there), bursts of writes in both directions, disconnects on either side, stops and starts of servers, restarts of the proxy, and minutes of virtual time. Every signal and byte on both ends is matched. Non-trivial: a tunnel with data. Distinct by history.";
    p.assumptions = {"data to and from a WebSocket client is UTF-8 text", "data written just before an unsettled disconnect may be lost, what arrives is a prefix"};
    p.run = run;
    p.quickCases = 4000;
    p.thoroughCases = 40000;
    return p;
}
