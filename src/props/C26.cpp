// C26: connections which are gone leave nothing behind, in the proxy and in the client library.
#include "engine.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"
#include "tunnelproxy/tunnelproxysocket.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "vclock.h"
#include "world.h"
#include <QAbstractEventDispatcher>
#include <QCoreApplication>
#include <QMutex>
#include <dirent.h>


#include <unistd.h>
#include <unordered_set>

using remoteproxy::Engine;
using RC = remoteproxyclient::TunnelProxyRemoteConnection;
using TS = remoteproxyclient::TunnelProxySocketServer;
using Sock = remoteproxyclient::TunnelProxySocket;

extern "C" size_t __sanitizer_get_current_allocated_bytes();
// Qt's hooks for tools: every QObject that is created or destroyed
extern "C" Q_CORE_EXPORT quintptr qtHookData[];

namespace {
std::unordered_set<QObject *> *objects = nullptr;
QMutex *objectsLock = nullptr;

void onAdd(QObject *o)
{
    QMutexLocker l(objectsLock);
    objects->insert(o);
}
void onRemove(QObject *o)
{
    QMutexLocker l(objectsLock);
    objects->erase(o);
}
void watch()
{
    if (objects)
        return;
    objects = new std::unordered_set<QObject *>;
    objectsLock = new QMutex;
    qtHookData[3] = reinterpret_cast<quintptr>(&onAdd);
    qtHookData[4] = reinterpret_cast<quintptr>(&onRemove);
}

struct Size {
    std::map<std::string, int> classes;
    std::map<std::string, int> files;
    qint64 bytes = 0;
};

struct Step {
    int op, peer, arg, arg2;
    QByteArray data;
    QString what;
};

struct Leaks {
    Src &s;
    Ctx &c;
    Sut sut;
    SutOptions opt;
    std::vector<Step> script;
    std::vector<Tr> kinds;                      // of the peers; a monitor is marked in 'monitors'
    std::vector<bool> monitors, raws;
    std::vector<std::unique_ptr<Peer>> peers;
    std::vector<std::unique_ptr<TS>> servers;
    std::vector<std::unique_ptr<RC>> clients;
    QMap<QUuid, Sock *> socks;
    qint64 own = 0;                             // of the bytes, what the measurements themselves keep
    bool alive = false;                         // servers of the library stay connected, they must have the time for their keep alive requests
    int registered = 0, ended = 0, refused = 0, tunnelled = 0;

    Leaks(Src &src, Ctx &ctx) : s(src), c(ctx), sut(ctx) {}
    [[noreturn]] void fail(const std::string &cat, const QString &m) { c.fail(cat, m + "\nhistory:\n" + c.traceText.right(5000)); }

    void spin(int n)
    {
        for (int i = 0; i < n; i++) {
            Sut::spin();
            for (auto &p : peers) {
                if (p)
                    p->io();
            }
        }
        c.beat();
    }

    Size measure()
    {
        Size z;
        z.bytes = qint64(__sanitizer_get_current_allocated_bytes()) - own;
        {
            QMutexLocker l(objectsLock);
            for (QObject *o : *objects)
                z.classes[o->metaObject()->className()]++;
        }
        DIR *d = opendir("/proc/self/fd");
        char buf[256];
        while (dirent *e = readdir(d)) {
            std::string p = std::string("/proc/self/fd/") + e->d_name;
            ssize_t l = readlink(p.c_str(), buf, sizeof buf - 1);
            if (l <= 0)
                continue;
            std::string t(buf, size_t(l));
            z.files[t.substr(0, t.find(':'))]++;
        }
        closedir(d);
        return z;
    }

    void record(std::vector<Size> &z)
    {
        z.reserve(65);
        qint64 before = qint64(__sanitizer_get_current_allocated_bytes());
        z.push_back(measure());
        own += qint64(__sanitizer_get_current_allocated_bytes()) - before;
    }

    // what grows in every round is left behind by the connections of a round
    void compare(const std::vector<Size> &z, const QString &whose)
    {
        size_t n = z.size();
        auto growing = [&](std::map<std::string, int> Size::*m) {
            QStringList l;
            for (auto &k : z[n - 1].*m) {
                bool grows = true;
                for (size_t i = 2; i < n && grows; i++) {
                    auto a = (z[i - 1].*m).find(k.first), b = (z[i].*m).find(k.first);
                    grows = b != (z[i].*m).end() && b->second > (a == (z[i - 1].*m).end() ? 0 : a->second);
                }
                if (grows)
                    l << QString("%1 (%2 -> %3)").arg(QString::fromStdString(k.first)).arg((z[1].*m).count(k.first) ? (z[1].*m).at(k.first) : 0).arg(k.second);
            }
            return l;
        };
        QStringList l = growing(&Size::classes);
        if (!l.isEmpty())
            fail("leak-object", QString("objects are left behind by %1 in each of %2 rounds: %3").arg(whose).arg(n - 1).arg(l.join(", ")));
        l = growing(&Size::files);
        if (!l.isEmpty())
            fail("leak-file", QString("file descriptors are left behind by %1 in each of %2 rounds: %3").arg(whose).arg(n - 1).arg(l.join(", ")));
    }

    // Four rounds; as long as memory grew in the second half of them, as many again: containers may have to find
    // their capacity, but what keeps something of every round grows in each doubling.
    void repeat(const QString &whose, const std::function<void()> &round)
    {
        std::vector<Size> z;
        std::vector<qint64> bytes;
        bytes.reserve(65);
        record(z);
        int n = 0;
        for (int upTo = 4; upTo <= 64; upTo *= 2) {
            while (n < upTo) {
                round();
                calm();
                if (n < 4)
                    record(z);
                bytes.push_back(__sanitizer_get_current_allocated_bytes() - own);
                n++;
            }
            if (upTo == 4)
                compare(z, whose);
            if (c.verbose) {
                QStringList b;
                for (qint64 x : bytes)
                    b << QString::number(x - bytes[0]);
                c.trace("bytes: " + b.join(' '));
            }
            if (bytes[size_t(upTo) - 1] <= bytes[size_t(upTo) / 2 - 1])
                return;
        }
        fail("leak-memory", QString("memory grows with %1: %2 bytes from round 8 to 16, %3 to round 32, %4 to round 64").arg(whose).arg(bytes[15] - bytes[7]).arg(bytes[31] - bytes[15]).arg(bytes[63] - bytes[31]));
    }

    // ---- the proxy: a script of raw peers, repeated
    QUuid uuid(int k) { return QUuid(0x2600u + uint(k), 6, 0x4abc, 0x80, 2, 2, 2, 2, 2, 2, 2); }
    void add(int op, int peer, const QString &what, const QByteArray &data = QByteArray(), int arg = 0)
    {
        script.push_back({op, peer, arg, 0, data, what});
        c.trace(QString("peer %1: %2").arg(peer).arg(what));
    }
    enum Op { Connect, Say, Wire, Close, Reset, Half, Pause, Spin, Pass };

    void write()
    {
        int n = s.range(1, 8);
        std::vector<int> serverPeers;
        std::vector<int> up;
        std::map<int, int> owner;
        std::map<int, int> nextAddr;
        std::map<int, bool> slip;
        auto connect = [&]() {
            int i = int(kinds.size());
            int k = s.weighted({4, 4, 3, 2});
            kinds.push_back(k == 0 || k == 3 ? Tr::Unix : k == 1 ? Tr::Tcp : Tr::Ws);
            monitors.push_back(k == 3);
            // Qt's WebSocket server itself keeps an object of everybody who does not complete the TLS handshake
            raws.push_back(k != 0 && k != 3 && !(k == 2 && opt.tls) && s.chance(1, 6));
            add(Connect, i, QString("connects, %1%2").arg(k == 3 ? "monitor" : trName(kinds.back()), raws.back() ? " (raw)" : ""));
            up.push_back(i);
            return i;
        };
        for (int i = 0; i < n; i++)
            connect();
        for (int k = s.range(1, 20); k > 0; k--) {
            Span sp(s);
            if (up.empty())
                connect();
            int p = s.pick(up);
            auto gone = [&]() { up.erase(std::find(up.begin(), up.end(), p)); ended++; };
            if (monitors[size_t(p)]) {
                switch (s.weighted({4, 2, 2, 1})) {
                case 0: add(Say, p, "refresh", "{\"method\":\"refresh\",\"params\":{\"printAll\":true}}"); break;
                case 1: add(Say, p, "rubbish", s.pick<QByteArray>({"rubbish", "{}", "{\"method\":\"list\"}", "[1,2]", "{\"method\":", "{\"params\":{}}"})); break;
                case 2: add(Close, p, "closes"); gone(); break;
                default: add(Spin, p, "", QByteArray(), s.range(1, 4));
                }
                continue;
            }
            QByteArray id = QByteArray::number(k);
            switch (s.weighted({3, 5, 5, 4, 2, 2, 2, 1, 1, 3, 2, 1, 1, 2})) {
            case 0: add(Say, p, "Hello", "{\"id\":" + id + ",\"method\":\"RemoteProxy.Hello\"}\n"); break;
            case 1: {
                if (slip[p])
                    break;
                QUuid u = uuid(s.chance(1, 6) ? 0 : p);
                add(Say, p, "RegisterServer " + u.toString(), "{\"id\":" + id + ",\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"s\",\"serverUuid\":\"" + u.toByteArray() + "\"}}");
                if (kinds[size_t(p)] != Tr::Ws && !raws[size_t(p)]) {
                    serverPeers.push_back(p);
                    slip[p] = true;
                    registered++;
                }
                add(Spin, p, "", QByteArray(), 3);
                break;
            }
            case 2: {
                int q = serverPeers.empty() || s.chance(1, 6) ? 99 : s.pick(serverPeers);
                add(Say, p, QString("RegisterClient at %1").arg(q), "{\"id\":" + id + ",\"method\":\"TunnelProxy.RegisterClient\",\"params\":{\"clientName\":\"c\",\"clientUuid\":\"" + uuid(100 + p).toByteArray() + "\",\"serverUuid\":\"" + uuid(q).toByteArray() + "\"}}\n");
                (q == 99 ? refused : registered)++;
                add(Spin, p, "", QByteArray(), 3);
                break;
            }
            case 3: {
                QByteArray d = kinds[size_t(p)] == Tr::Ws ? s.utf8Text(300) : s.payload(300);
                tunnelled++;
                if (slip[p])
                    add(Say, p, "a frame", World::slipFrame(quint16(s.range(0, 3)), d));
                else
                    add(Say, p, "data", d);
                break;
            }
            case 4: add(Say, p, "half a request", "{\"id\":" + id + ",\"method\":\"Remote"); break;
            case 5: add(Say, p, "DisconnectClient", World::slipFrame(0, "{\"id\":" + id + ",\"method\":\"TunnelProxy.DisconnectClient\",\"params\":{\"socketAddress\":" + QByteArray::number(s.range(1, 3)) + "}}\n")); break;
            case 6: add(Say, p, "Ping", World::slipFrame(0, "{\"id\":" + id + ",\"method\":\"TunnelProxy.Ping\",\"params\":{\"timestamp\":1}}\n")); break;
            case 7: add(Say, p, "12 KB", QByteArray(12000, '{')); break;
            case 8: add(Wire, p, "bytes on the wire", s.bytes(s.range(1, 60))); break;
            case 9: add(Close, p, "closes"); gone(); break;
            case 10: add(Reset, p, "resets"); gone(); break;
            case 11: add(Half, p, "half-closes"); break;
            case 12: add(Pause, p, "does not read"); break;
            default:
                if (s.chance(1, 3))
                    add(Pass, p, "time passes", QByteArray(), s.pick<int>({1000, 9000, 61000}));
                else
                    add(Spin, p, "", QByteArray(), s.range(1, 5));
            }
            if (s.chance(1, 4))
                connect();
        }
    }

    void perform()
    {
        peers.clear();
        peers.resize(kinds.size());
        for (const Step &t : script) {
            size_t i = size_t(t.peer);
            Peer *p = peers[i].get();
            switch (t.op) {
            case Connect: {
                Tr tr = kinds[i];
                peers[i] = std::make_unique<Peer>(tr, opt.tls && tr != Tr::Unix);
                p = peers[i].get();
                p->rawMode = raws[i];
                if (!p->open(monitors[i] ? sut.monitorPath : sut.unixPath, tr == Tr::Tcp ? sut.tcpPort : sut.wsPort))
                    c.abandon("refused");
                double t0 = vclock::realSecs();
                for (int k = 0; k < 3 || !p->ready(); k++) {
                    spin(1);
                    if (p->closed() || vclock::realSecs() - t0 > 5)
                        break;
                }
                break;
            }
            case Say:
                if (p->closed())
                    break;
                if (raws[i])
                    p->sendPlain(t.data);
                else
                    p->send(t.data);
                break;
            case Wire:
                if (!p->closed())
                    p->sendPlain(t.data);
                break;
            case Close: p->close(); break;
            case Reset: p->reset(); break;
            case Half: p->shutdownWrite(); break;
            case Pause: p->paused = true; break;
            case Spin: spin(t.arg); break;
            case Pass:
                for (int k = 0; k < 4; k++) {
                    vclock::advanceMs(t.arg / 4);
                    spin(2);
                }
                break;
            }
            if (t.op != Spin)
                spin(1);
        }
        // everybody leaves
        for (auto &p : peers) {
            if (p) {
                p->paused = false;
                p->close();
            }
        }
        spin(4);
        peers.clear();
    }

    // timeouts which were pending have their say
    void calm()
    {
        for (int k = 0; k < 3; k++) {
            for (int i = 0; i < (alive ? 22 : 4); i++) {
                vclock::advanceMs(i == 3 && !alive ? 130000 : 6000);
                spin(3);
            }
        }
        double t0 = vclock::realSecs();
        QByteArray last;
        for (int quiet = 0; quiet < 3 && vclock::realSecs() - t0 < 3;) {
            Size z = measure();
            QByteArray now;
            for (auto &x : z.classes)
                now += QByteArray::fromStdString(x.first) + QByteArray::number(x.second) + ' ';
            for (auto &x : z.files)
                now += QByteArray::fromStdString(x.first) + QByteArray::number(x.second) + ' ';
            quiet = now == last ? quiet + 1 : 0;
            last = now;
            spin(5);
        }
    }

    void proxy()
    {
        opt.tls = s.chance(1, 6);
        opt.inactiveTimeout = 30000;
        sut.start(opt);
        c.trace(QString("the proxy%1").arg(opt.tls ? " with TLS" : ""));
        write();
        repeat("the connections to the proxy", [&]() { perform(); });
        sut.stop();
    }

    // ---- the client library
    bool round()
    {
        bool moved = QCoreApplication::eventDispatcher()->processEvents(QEventLoop::AllEvents);
        QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
        c.beat();
        return moved;
    }
    bool until(const std::function<bool()> &ok)
    {
        double t0 = vclock::realSecs();
        while (!ok()) {
            round();
            if (vclock::realSecs() - t0 > 4)
                return false;
        }
        return true;
    }
    struct LibStep {
        int op, who, arg;
        QByteArray data;
    };
    void library()
    {
        opt.tls = s.chance(1, 4);
        sut.start(opt);
        c.trace(QString("the client library%1").arg(opt.tls ? " with TLS" : ""));
        int ns = s.range(1, 2), nc = s.range(1, 4);
        QUrl tcp(QString(opt.tls ? "ssl" : "tcp") + "://127.0.0.1:" + QString::number(sut.tcpPort));
        QUrl ws(QString(opt.tls ? "wss" : "ws") + "://127.0.0.1:" + QString::number(sut.wsPort));
        for (int i = 0; i < ns; i++) {
            servers.push_back(std::make_unique<TS>(uuid(i), "s", TS::ConnectionTypeTcpSocket));
            TS *t = servers.back().get();
            QObject::connect(t, &TS::sslErrors, t, [t](const QList<QSslError> &) { t->ignoreSslErrors(); });
            QObject::connect(t, &TS::clientConnected, t, [this](Sock *k) { socks[k->clientUuid()] = k; });
            QObject::connect(t, &TS::clientDisconnected, t, [this](Sock *k) { socks.remove(k->clientUuid()); });
        }
        std::vector<bool> overWs;
        for (int i = 0; i < nc; i++) {
            overWs.push_back(s.chance(1, 3));
            clients.push_back(std::make_unique<RC>(uuid(100 + i), "c", overWs.back() ? RC::ConnectionTypeWebSocket : RC::ConnectionTypeTcpSocket));
            RC *t = clients.back().get();
            QObject::connect(t, &RC::sslErrors, t, [t](const QList<QSslError> &) { t->ignoreSslErrors(); });
        }
        std::vector<LibStep> steps;
        const char *name[] = {"connects", "writes", "is written to", "leaves", "is disconnected by the server", "loses its server", "turns", "connects to a wrong server", "waits", "connects to a closed port", "and all others are disconnected by their servers at once"};
        for (int k = s.range(2, 14); k > 0; k--) {
            Span sp(s);
            LibStep t;
            t.op = s.weighted({6, 4, 4, 3, 3, 1, 2, 1, 1, 1, 2});
            t.who = s.range(0, nc - 1);
            t.arg = s.range(0, ns - 1);
            if (t.op == 1 || t.op == 2)
                t.data = s.utf8Text(200) + "x";
            steps.push_back(t);
            c.trace(QString("client %1 (%2): %3, server %4").arg(t.who).arg(overWs[size_t(t.who)] ? "WebSocket" : "TCP", name[t.op]).arg(t.arg));
        }
        int endMode = s.range(0, 3); // clients first, servers first, the proxy, the servers stay
        alive = endMode == 3;
        c.trace(QString("end: %1").arg(endMode == 0 ? "clients first" : endMode == 1 ? "servers first" : endMode == 2 ? "the proxy stops" : "the servers keep running"));
        repeat("the client library", [&]() {
            if (!sut.started())
                sut.start(opt);
            for (auto &t : servers) {
                if (!t->running())
                    t->startServer(tcp);
            }
            if (!until([&]() { for (auto &t : servers) { if (!t->running()) return false; } return true; }))
                c.abandon("server-not-running");
            for (const LibStep &t : steps) {
                RC *k = clients[size_t(t.who)].get();
                TS *v = servers[size_t(t.arg)].get();
                bool on = k->remoteConnected();
                Sock *peer = socks.value(uuid(100 + t.who));
                bool w = overWs[size_t(t.who)];
                switch (t.op) {
                case 0:
                    if (k->state() != RC::StateDisconnected)
                        break;
                    k->connectServer(w ? ws : tcp, uuid(t.arg));
                    if (v->running())
                        until([&]() { return (k->remoteConnected() && socks.contains(uuid(100 + t.who))) || k->state() == RC::StateDisconnected; });
                    registered++;
                    break;
                case 1:
                    if (on)
                        k->sendData(t.data);
                    tunnelled++;
                    break;
                case 2:
                    if (peer && on)
                        peer->writeData(t.data);
                    tunnelled++;
                    break;
                case 3:
                    k->disconnectServer();
                    ended++;
                    break;
                case 4:
                    if (peer)
                        peer->disconnectSocket();
                    ended++;
                    break;
                case 5:
                    v->stopServer();
                    until([&]() { return v->state() == TS::StateDisconnected; });
                    v->startServer(tcp);
                    until([&]() { return v->running(); });
                    ended++;
                    break;
                case 6: break;
                case 7:
                    if (k->state() == RC::StateDisconnected) {
                        k->connectServer(w ? ws : tcp, uuid(99));
                        until([&]() { return k->state() == RC::StateDisconnected; });
                        refused++;
                    }
                    break;
                case 8: vclock::advanceMs(31000); break;
                case 10:
                    // Several requests are pending at the same time
                    for (Sock *x : socks.values()) {
                        x->disconnectSocket();
                        ended++;
                    }
                    break;
                default:
                    if (k->state() == RC::StateDisconnected) {
                        QUrl u(w ? ws : tcp);
                        u.setPort(9);
                        k->connectServer(u, uuid(0));
                        until([&]() { return k->state() == RC::StateDisconnected; });
                        refused++;
                    }
                }
                for (int i = 0; i < 6; i++)
                    round();
            }
            auto leave = [&]() {
                for (auto &k : clients)
                    k->disconnectServer();
            };
            if (endMode == 0)
                leave();
            if (endMode == 2)
                sut.stop();
            for (auto &t : servers) {
                if (endMode != 3)
                    t->stopServer();
            }
            leave();
            until([&]() {
                for (auto &t : servers) {
                    if (endMode != 3 && t->state() != TS::StateDisconnected)
                        return false;
                }
                if (endMode == 3 && !socks.isEmpty())
                    return false;
                for (auto &k : clients) {
                    if (k->state() != RC::StateDisconnected)
                        return false;
                }
                return true;
            });
            for (int i = 0; i < 10; i++)
                round();
            if (!sut.started())
                sut.start(opt);
        });
        servers.clear();
        clients.clear();
        sut.stop();
        for (int i = 0; i < 4; i++)
            round();
        Size last = measure();
        for (auto &x : last.classes) {
            if (x.first.find("remoteproxyclient::") == 0)
                fail("leak-object", QString("%1 objects %2 outlive the servers and connections of the user").arg(x.second).arg(QString::fromStdString(x.first)));
        }
    }
};

void run(Src &s, Ctx &c)
{
    watch();
    {
        Leaks x(s, c);
        bool lib = s.chance(1, 3);
        if (lib)
            x.library();
        else
            x.proxy();
        c.label(lib ? "client library sessions" : "proxy sessions");
        c.label("registrations per round", x.registered);
        c.label("refused registrations per round", x.refused);
        c.label("ends per round", x.ended);
        c.label("tunnelled pieces per round", x.tunnelled);
        if (x.registered || x.refused)
            c.nontrivial();
    }
}
}

Property makeProperty()
{
    Property p;
    p.id = "C26";
    p.rule = "a generated session is repeated (four times, up to 64 times as long as memory grows), on the same proxy or with the same library objects, each time until everybody has left and all timeouts have passed. Proxy: up to 28 raw peers on all endpoints (monitor included) which register, fail to, send requests, halves, rubbish and tunnel data, do not read, close, reset, half-close or are disconnected by their server. Library: servers and connections which connect (also to wrong servers and closed ports), transfer, leave and are disconnected, with the ends in any order, or the proxy stopped, or the servers running on. No class of objects and no kind of file descriptor may grow in every round, and the allocated memory must stop growing. Non-trivial: a registration was tried. Distinct by session.";
    p.assumptions = {"with TLS, peers on the WebSocket endpoint complete the TLS handshake: Qt's own QWebSocketServer keeps an object of each one that does not", "every QObject is seen by Qt's object hooks, every allocation by AddressSanitizer's allocator"};
    p.run = run;
    p.quickCases = 3000;
    p.thoroughCases = 40000;
    return p;
}
