// C15: start, stop and restart of the proxy in all states.
#include "engine.h"
#include "probes.h"
#include "vclock.h"
#include <QCoreApplication>
#include <QDir>
#include <QJsonArray>
#include <QJsonDocument>
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

using remoteproxy::Engine;

namespace {
const char *endName[4] = {"unix", "TCP", "WebSocket", "monitor"};

struct P {
    int idx;
    int end; // 0 unix, 1 tcp, 2 websocket, 3 monitor
    std::unique_ptr<Peer> peer;
    QString what = "connected";
    bool server = false;
    QUuid uuid;
};

int socketCount()
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    char buf[128];
    while (dirent *e = readdir(d)) {
        std::string p = std::string("/proc/self/fd/") + e->d_name;
        ssize_t l = readlink(p.c_str(), buf, sizeof buf - 1);
        if (l > 7 && !strncmp(buf, "socket:", 7))
            n++;
    }
    closedir(d);
    return n;
}

struct Life {
    Src &s;
    Ctx &c;
    Sut sut;
    std::vector<std::unique_ptr<P>> peers;
    bool running = false;
    bool blocked[4] = {false, false, false, false}; // as the running instance found it
    bool blockNow[4] = {false, false, false, false};
    int blockFd[4] = {-1, -1, -1, -1};
    int starts = 0, stops = 0, states = 0, blocks = 0, unsent = 0, destroys = 0, direct = 0;
    int baseSockets = 0, uuidCount = 0;
    SutOptions opt;
    std::vector<QUuid> used;

    Life(Src &src, Ctx &ctx) : s(src), c(ctx), sut(ctx) {}
    ~Life()
    {
        for (int fd : blockFd) {
            if (fd >= 0)
                ::close(fd);
        }
    }
    [[noreturn]] void fail(const std::string &cat, const QString &m) { c.fail(cat, m + "\nhistory:\n" + c.traceText.right(4000)); }

    void spin(int n)
    {
        for (int i = 0; i < n; i++) {
            Sut::spin();
            for (auto &p : peers)
                p->peer->io();
        }
        c.beat();
    }
    QString path(int end) { return end == 0 ? sut.unixPath : sut.monitorPath; }
    int port(int end) { return end == 1 ? sut.tcpPort : end == 2 ? sut.wsPort : 0; }
    bool available(int end) { return running && !blocked[end]; }

    std::unique_ptr<Peer> dial(int end, bool raw)
    {
        auto p = std::make_unique<Peer>(end == 1 ? Tr::Tcp : end == 2 ? Tr::Ws : Tr::Unix, opt.tls && (end == 1 || end == 2));
        p->rawMode = raw;
        if (!p->open(path(end), port(end)))
            return nullptr;
        return p;
    }

    // ---- blocking of endpoints (only while stopped)
    void setBlock(int end, bool on)
    {
        if (blockNow[end] == on)
            return;
        blockNow[end] = on;
        if (end == 1 || end == 2) {
            if (on) {
                int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
                int one = 1;
                setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
                sockaddr_in a;
                memset(&a, 0, sizeof a);
                a.sin_family = AF_INET;
                a.sin_port = htons(quint16(port(end)));
                a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                if (bind(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) != 0 || listen(fd, 5) != 0) {
                    ::close(fd);
                    c.abandon("port-lost");
                }
                blockFd[end] = fd;
                baseSockets++;
            } else {
                ::close(blockFd[end]);
                blockFd[end] = -1;
                baseSockets--;
            }
        } else {
            // a directory which is not empty is in the way
            QDir d;
            if (on) {
                if (QFile::exists(path(end)))
                    QFile::remove(path(end));
                d.mkpath(path(end) + "/x");
            } else {
                d.rmdir(path(end) + "/x");
                d.rmdir(path(end));
            }
        }
    }

    // ---- oracles
    void verifyStopped(const QString &after)
    {
        if (Engine::exists() && Engine::instance()->running())
            fail("stop-running", "running() is true after " + after);
        for (auto &p : peers)
            p->peer->paused = false;
        // every connection ends
        double t0 = vclock::realSecs();
        for (;;) {
            spin(1);
            P *open = nullptr;
            for (auto &p : peers) {
                if (!p->peer->closed())
                    open = p.get();
            }
            if (!open)
                break;
            if (vclock::realSecs() - t0 > 4)
                fail("stop-open", QString("connection %1 (%2, %3) is still open after %4").arg(open->idx).arg(endName[open->end], open->what, after));
        }
        spin(4);
        if (Engine::exists() && Engine::instance()->running())
            fail("stop-running", "running() is true some time after " + after);
        // nobody listens
        for (int e = 0; e < 4; e++) {
            if (blockNow[e])
                continue;
            if (dial(e, true))
                fail("stop-listens", QString("the %1 endpoint still accepts after %2").arg(endName[e], after));
        }
        peers.clear();
        spin(2);
        int n = socketCount();
        if (n > baseSockets)
            fail("stop-sockets", QString("%1 sockets are left after %2").arg(n - baseSockets).arg(after));
    }

    QJsonObject ask(Peer &p, const QByteArray &request, const QString &what)
    {
        p.send(request);
        double t0 = vclock::realSecs();
        while (!p.in.contains('\n')) {
            Sut::spin();
            p.io();
            if (p.closed() && !p.in.contains('\n'))
                fail("start-service", "the connection ends, asked for " + what);
            if (vclock::realSecs() - t0 > 4)
                fail("start-service", "no answer, asked for " + what);
            c.beat();
        }
        int e = p.in.indexOf('\n');
        QJsonObject o = QJsonDocument::fromJson(p.in.left(e)).object();
        p.in.remove(0, e + 1);
        return o;
    }
    void waitReady(Peer &p, int end)
    {
        double t0 = vclock::realSecs();
        while (!p.ready()) {
            Sut::spin();
            p.io();
            if (p.closed() || vclock::realSecs() - t0 > 4)
                fail("start-service", QString("no connection to %1").arg(endName[end]));
            c.beat();
        }
    }
    void verifyStarted()
    {
        spin(3);
        if (!Engine::instance()->running())
            fail("start-running", "not running after a start");
        if (!available(3)) {
            c.label("started without a monitor");
        } else {
            auto m = dial(3, false);
            if (!m)
                fail("start-service", "the monitor does not accept");
            QJsonObject o = ask(*m, "{\"method\":\"refresh\",\"params\":{\"printAll\":true}}", "monitor data")["tunnelProxyStatistic"].toObject();
            if (o["totalClientCount"].toInt(-1) != 0 || o["serverConnectionsCount"].toInt(-1) != 0 || o["clientConnectionsCount"].toInt(-1) != 0 || o["tunnelConnections"].toArray().size() != 0 || o["troughput"].toInt(-1) != 0)
                fail("start-empty", "a new start begins with " + QJsonDocument(o).toJson(QJsonDocument::Compact));
            for (const QString &k : o["transports"].toObject().keys()) {
                if (o["transports"].toObject()[k].toInt(-1) != 0)
                    fail("start-empty", "a new start begins with connections of " + k);
            }
            m->close();
        }
        for (int e = 0; e < 3; e++) {
            if (!available(e))
                continue;
            auto p = dial(e, false);
            if (!p)
                fail("start-service", QString("%1 does not accept").arg(endName[e]));
            waitReady(*p, e);
            QJsonObject o = ask(*p, "{\"id\":7,\"method\":\"RemoteProxy.Hello\"}\n", QString("Hello over %1").arg(endName[e]));
            if (o["id"].toInt() != 7 || o["status"].toString() != "success" || o["params"].toObject()["name"].toString() != opt.name)
                fail("start-service", QString("Hello over %1: ").arg(endName[e]) + QJsonDocument(o).toJson(QJsonDocument::Compact));
            // the registry is empty
            if (!used.empty() && s.chance(1, 2)) {
                QUuid u = s.pick(used);
                if (e != 2 && s.chance(1, 2)) {
                    o = ask(*p, registerServer(u), "a registration");
                    if (o["params"].toObject()["tunnelProxyError"].toString() != "TunnelProxyErrorNoError")
                        fail("start-empty", "a UUID from before the start cannot register: " + QJsonDocument(o).toJson(QJsonDocument::Compact));
                } else {
                    o = ask(*p, registerClient(QUuid::createUuidV5(u, QByteArray("x")), u), "a registration");
                    if (o["params"].toObject()["tunnelProxyError"].toString() != "TunnelProxyErrorServerNotFound")
                        fail("start-empty", "a server from before the start: " + QJsonDocument(o).toJson(QJsonDocument::Compact));
                }
            }
            p->close();
            spin(2);
        }
        spin(2);
    }

    // ---- operations of the proxy
    void start(bool blocksWanted)
    {
        if (!running) {
            for (int e = 0; e < 4; e++)
                setBlock(e, blocksWanted && s.chance(1, 3));
        }
        QStringList l;
        for (int e = 0; e < 4; e++) {
            if (blockNow[e])
                l << endName[e];
        }
        blocks += l.size();
        opt.tls = s.chance(1, 8);
        opt.name = "n" + QString::number(starts);
        opt.inactiveTimeout = s.pick<int>({8000, 1000, 60000});
        c.trace(QString("start%1%2%3").arg(running ? " again" : "", opt.tls ? " with TLS" : "", l.isEmpty() ? QString() : ", blocked: " + l.join(' ')));
        if (running)
            direct++;
        Engine::instance()->start(sut.makeConfig(opt));
        starts++;
        running = true;
        for (int e = 0; e < 4; e++)
            blocked[e] = blockNow[e];
    }
    void stop()
    {
        c.trace("stop");
        Engine::instance()->stop();
        stops++;
        running = false;
    }
    void destroy()
    {
        c.trace("destroy");
        Engine::instance()->destroy();
        destroys++;
        running = false;
    }

    // ---- operations of peers
    QByteArray registerServer(const QUuid &u) { return "{\"id\":1,\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"s\",\"serverUuid\":\"" + u.toByteArray() + "\"}}\n"; }
    QByteArray registerClient(const QUuid &u, const QUuid &sv) { return "{\"id\":2,\"method\":\"TunnelProxy.RegisterClient\",\"params\":{\"clientName\":\"c\",\"clientUuid\":\"" + u.toByteArray() + "\",\"serverUuid\":\"" + sv.toByteArray() + "\"}}\n"; }
    QUuid fresh()
    {
        QUuid u(0x1000u + uint(uuidCount++), 7, 0x4000, 0x80, 1, 1, 1, 1, 1, 1, 1);
        used.push_back(u);
        return u;
    }
    P *add()
    {
        std::vector<int> e;
        for (int i : {0, 1, 2, 3}) {
            if (available(i))
                e.push_back(i);
        }
        if (e.empty() || peers.size() >= 25)
            return nullptr;
        int end = s.pick(e);
        bool raw = s.chance(1, 8);
        auto p = std::make_unique<P>();
        p->idx = int(peers.size());
        p->end = end;
        p->peer = dial(end, raw);
        if (!p->peer) {
            if (end == 0 || end == 3) {
                spin(2); // the backlog may be full
                p->peer = dial(end, raw);
            }
            if (!p->peer)
                fail("start-service", QString("%1 does not accept").arg(endName[end]));
        }
        if (raw)
            p->what = "raw";
        states++;
        c.trace(QString("peer %1 connects to %2%3").arg(p->idx).arg(endName[end], raw ? " (raw)" : ""));
        peers.push_back(std::move(p));
        return peers.back().get();
    }
    void say(P *p, const QString &what, const QByteArray &b)
    {
        c.trace(QString("peer %1: %2").arg(p->idx).arg(what));
        p->what = what;
        if (p->peer->rawMode)
            p->peer->sendPlain(b);
        else
            p->peer->send(b);
        p->peer->io();
    }
    void act(P *p)
    {
        if (p->peer->closed())
            return;
        if (p->end == 3) {
            switch (s.weighted({3, 1, 1})) {
            case 0: say(p, "monitor request", "{\"method\":\"refresh\"}"); break;
            case 1: say(p, "half a monitor request", "{\"method\":"); break;
            default: say(p, "monitor request, not reading", "{\"method\":\"refresh\",\"params\":{\"printAll\":true}}"); p->peer->paused = true; break;
            }
            return;
        }
        std::vector<P *> servers;
        for (auto &o : peers) {
            if (o->server && !o->peer->closed())
                servers.push_back(o.get());
        }
        switch (s.weighted({3, 2, 2, servers.empty() ? 0 : 4, 2, 1, 2, 1, 1, 1})) {
        case 0: say(p, "half a request", "{\"id\":3,\"method\":\"RemoteProxy.Hel"); break;
        case 1: say(p, "Hello", "{\"id\":3,\"method\":\"RemoteProxy.Hello\"}\n"); break;
        case 2:
            if (p->end != 2 && !p->server) {
                p->uuid = fresh();
                p->server = true;
                say(p, "registers as a server", registerServer(p->uuid));
            }
            break;
        case 3: say(p, "registers as a client", registerClient(fresh(), s.pick(servers)->uuid)); break;
        case 4: {
            // data which nobody reads
            P *sv = servers.empty() ? nullptr : s.pick(servers);
            if (sv) {
                sv->peer->paused = true;
                spin(2);
            }
            int n = s.pick<int>({100, 20000, 400000, 3000000});
            QByteArray b = QByteArray(n, 'd');
            if (p->peer->ready()) {
                unsent++;
                say(p, QString("sends %1 bytes").arg(n), b);
            }
            break;
        }
        case 5: {
            // answers which are not read
            p->peer->paused = true;
            QByteArray b;
            for (int i = s.pick<int>({3, 30, 90}); i > 0; i--)
                b += "{\"id\":4,\"method\":\"RemoteProxy.Introspect\"}\n";
            unsent++;
            say(p, "asks and does not read", b);
            break;
        }
        case 6: say(p, "garbage", s.payload(40)); break;
        case 7:
            c.trace(QString("peer %1 closes").arg(p->idx));
            p->what = "closed";
            p->peer->close();
            break;
        case 8:
            c.trace(QString("peer %1 resets").arg(p->idx));
            p->what = "reset";
            p->peer->reset();
            break;
        default:
            c.trace(QString("peer %1 shuts down its writing side").arg(p->idx));
            p->what = "half closed";
            p->peer->shutdownWrite();
            break;
        }
    }

    void life()
    {
        for (int n = s.range(0, 14); n > 0; n--) {
            Span sp(s);
            switch (s.weighted({6, 10, 5, 1})) {
            case 0: {
                P *p = add();
                if (p && s.chance(1, 2))
                    spin(3);
                break;
            }
            case 1:
                if (!peers.empty()) {
                    act(peers[s.draw(peers.size())].get());
                    if (s.chance(1, 2))
                        spin(1);
                }
                break;
            case 2: spin(s.range(1, 6)); break;
            default: {
                int ms = s.pick<int>({100, 1500, 9000});
                c.trace(QString("%1 ms pass").arg(ms));
                vclock::advanceMs(ms);
                break;
            }
            }
        }
    }

    void run()
    {
        // free ports
        opt.name = "first";
        sut.start(opt);
        running = true;
        Engine::instance()->stop();
        running = false;
        spin(4);
        baseSockets = socketCount();

        for (int r = s.range(1, 6); r > 0; r--) {
            Span sp(s);
            if (!running) {
                start(s.chance(1, 3));
                if (s.chance(1, 3)) {
                    // stopped before the event loop turns
                    if (s.chance(1, 3))
                        add();
                    switch (s.weighted({2, 1, 1})) {
                    case 0: stop(); verifyStopped("an immediate stop"); break;
                    case 1: destroy(); verifyStopped("an immediate destroy"); break;
                    default: start(false); break;
                    }
                }
                if (running && s.chance(2, 3))
                    verifyStarted();
            }
            if (!running)
                continue;
            life();
            switch (s.weighted({5, 2, 1, 1})) {
            case 0:
                stop();
                if (s.chance(1, 6))
                    stop();
                verifyStopped("a stop");
                break;
            case 1: {
                // a start without a stop: the old connections end, the new instance serves
                std::vector<std::unique_ptr<P>> old;
                old.swap(peers);
                start(false);
                double t0 = vclock::realSecs();
                for (auto &p : old)
                    p->peer->paused = false;
                for (;;) {
                    Sut::spin();
                    c.beat();
                    P *open = nullptr;
                    for (auto &p : old) {
                        p->peer->io();
                        if (!p->peer->closed())
                            open = p.get();
                    }
                    if (!open)
                        break;
                    if (vclock::realSecs() - t0 > 4)
                        fail("stop-open", QString("connection %1 (%2, %3) is still open after a restart").arg(open->idx).arg(endName[open->end], open->what));
                }
                verifyStarted();
                break;
            }
            case 2: destroy(); verifyStopped("a destroy"); break;
            default: break; // goes on
            }
        }
        if (running) {
            stop();
            verifyStopped("the last stop");
        }
        for (int e = 0; e < 4; e++)
            setBlock(e, false);
        sut.stop();
    }
};

void run(Src &s, Ctx &c)
{
    Life x(s, c);
    x.run();
    c.label("starts", x.starts);
    c.label("starts of a running engine", x.direct);
    c.label("stops", x.stops);
    c.label("destroys", x.destroys);
    c.label("peer states", x.states);
    c.label("unread data", x.unsent);
    c.label("blocked endpoints", x.blocks);
    if (x.starts && x.states)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C15";
    p.rule = "histories of start (with and without blocked endpoints, with and without TLS), stop, start without stop, destroy, and stop before the event loop turns, with up to 25 peers on all four endpoints in any state: not yet accepted, half a request, handshake not done, registered, with data that nobody reads, closed or reset and not yet noticed. After each stop every peer sees the end, nobody listens, no socket is left and running() is false; after each start every endpoint that is not blocked serves and the registry is empty. Non-trivial: a start with a peer. Distinct by history.";
    p.assumptions = {"what a connection received before its end is not judged here"};
    p.run = run;
    p.quickCases = 5000;
    p.thoroughCases = 60000;
    return p;
}
