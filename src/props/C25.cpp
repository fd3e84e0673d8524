// C25: the tunnel client tool connects as it is told: as an echo server or as a client, with or without random data,
// and never to a proxy it cannot trust.
#include "peer.h"
#include "sut.h"
#include "tool.h"
#include "vclock.h"
#include <QJsonArray>
#include <QJsonDocument>
#include <QJsonObject>
#include <QUuid>
#include <memory>
#include <netdb.h>

namespace {

struct Frame {
    int address;
    QByteArray data;
};

QByteArray request(int id, const QString &method, const QJsonObject &params)
{
    QJsonObject o;
    o["id"] = id;
    o["method"] = method;
    o["params"] = params;
    return QJsonDocument(o).toJson(QJsonDocument::Compact) + "\n";
}

QByteArray slip(int address, const QByteArray &data)
{
    QByteArray r;
    for (char ch : QByteArray(1, char(address >> 8)) + char(address & 0xff) + data) {
        if (uchar(ch) == 0xC0)
            r += "\xDB\xDC";
        else if (uchar(ch) == 0xDB)
            r += "\xDB\xDD";
        else
            r += ch;
    }
    return r + "\xC0";
}

struct Stage {
    Src &s;
    Ctx &c;
    Sut sut;
    Tool t;
    std::vector<std::unique_ptr<Peer>> peers;
    bool tls = false;
    QString name;
    QString uuid;

    Stage(Src &src, Ctx &ctx) : s(src), c(ctx), sut(ctx), t("the tunnel client", "/tunnelclient/nymea-remoteproxy-tunnelclient") {}
    ~Stage() { peers.clear(); }

    void serve(bool withTls)
    {
        tls = withTls;
        SutOptions o;
        o.tls = tls;
        o.inactiveTimeout = o.jsonRpcTimeout = 100000000;
        sut.start(o);
    }
    template<class F> bool await(F done, double limit)
    {
        double t0 = vclock::realSecs();
        while (!done()) {
            if (vclock::realSecs() - t0 > limit)
                return false;
            Sut::spin();
            for (auto &p : peers)
                p->io();
            c.beat();
            nap(1);
        }
        return true;
    }
    Peer *connectPeer(Tr tr)
    {
        std::unique_ptr<Peer> p(new Peer(tr, tls && tr != Tr::Unix));
        if (!p->open(sut.unixPath, tr == Tr::Tcp ? sut.tcpPort : sut.wsPort))
            c.abandon("connection");
        peers.push_back(std::move(p));
        Peer *r = peers.back().get();
        if (!await([&] { return r->ready() || r->closed(); }, 20) || r->closed())
            c.abandon("connection");
        return r;
    }
    QJsonObject line(Peer *p)
    {
        if (!await([&] { return p->in.contains('\n') || p->closed(); }, 20) || !p->in.contains('\n'))
            c.abandon("no reply");
        int i = p->in.indexOf('\n');
        QByteArray l = p->in.left(i);
        p->in.remove(0, i + 1);
        return QJsonDocument::fromJson(l).object();
    }
    // complete frames received by a registered server
    std::vector<Frame> frames(Peer *p)
    {
        std::vector<Frame> r;
        int i;
        while ((i = p->in.indexOf('\xC0')) >= 0) {
            QByteArray f = p->in.left(i), d;
            p->in.remove(0, i + 1);
            for (int k = 0; k < f.size(); k++) {
                if (uchar(f[k]) == 0xDB && k + 1 < f.size())
                    d += uchar(f[++k]) == 0xDC ? '\xC0' : '\xDB';
                else
                    d += f[k];
            }
            if (d.size() >= 2)
                r.push_back({uchar(d[0]) << 8 | uchar(d[1]), d.mid(2)});
        }
        return r;
    }
    QJsonObject statistics()
    {
        Peer p(Tr::Unix, false);
        if (!p.open(sut.monitorPath, 0))
            c.abandon("monitor");
        p.send("{\"method\":\"refresh\",\"params\":{\"printAll\":true}}\n");
        double t0 = vclock::realSecs();
        while (!p.in.contains('\n') && !p.closed()) {
            if (vclock::realSecs() - t0 > 20)
                c.abandon("monitor");
            Sut::spin();
            p.io();
            c.beat();
        }
        return QJsonDocument::fromJson(p.in).object()["tunnelProxyStatistic"].toObject();
    }
    static bool localhost()
    {
        struct hostent *h = gethostbyname("localhost");
        return h && h->h_addrtype == AF_INET && h->h_addr_list[0] && !memcmp(h->h_addr_list[0], "\x7f\0\0\1", 4);
    }
    QString url()
    {
        return QString("%1://%2:%3").arg(tls ? "ssl" : "tcp").arg(s.chance(1, 3) && localhost() ? "localhost" : "127.0.0.1").arg(sut.tcpPort);
    }
    QString newUuid(int k) { return QUuid(uint(c.worker), 7, ushort(k), 1, 2, 3, 4, 5, 6, 7, uchar(s.draw(256))).toString(); }
    // options which say who the tool is
    QStringList identity(const QString &defaultName)
    {
        QStringList a;
        name = defaultName;
        if (s.chance(1, 2)) {
            name = s.chance(1, 2) ? QString("tool %1").arg(s.draw(100)) : s.unicode(20).remove(QChar(0));
            if (name.isEmpty() || name.startsWith('-'))
                name = "tool" + name;
            a << s.pick<QString>({"-n", "--name"}) << name;
        }
        if (s.chance(2, 3)) {
            uuid = newUuid(99);
            a << "--uuid" << (s.chance(1, 2) ? uuid : uuid.mid(1, 36));
        }
        return a;
    }
    void start(QStringList args)
    {
        // the order of options does not matter; values stay behind their options
        c.trace(args.join(' '));
        t.start(c, args);
    }
    void alive()
    {
        if (t.over()) {
            t.checkHealth(c);
            c.fail("tool-status", "the tunnel client ends with " + t.ending() + "\n" + QString::fromUtf8(t.out().right(1500)));
        }
    }
    QJsonObject server()
    {
        QJsonArray l = statistics()["tunnelConnections"].toArray();
        return l.isEmpty() ? QJsonObject() : l.first().toObject();
    }
    void awaitServer(double limit)
    {
        QJsonObject e;
        double t0 = vclock::realSecs();
        while ((e = server()).isEmpty()) {
            alive();
            if (vclock::realSecs() - t0 > limit)
                c.fail("tool-connect", "the tunnel client does not register as a server\n" + QString::fromUtf8(t.out().right(1500)));
            await([] { return false; }, 0.02);
        }
        checkIdentity(e["name"].toString(), e["serverUuid"].toString());
    }
    void checkIdentity(const QString &n, const QString &u)
    {
        if (n != name)
            c.fail("tool-identity", "the tunnel client registers with the name '" + n + "' instead of '" + name + "'");
        if (QUuid(u).isNull() || (!uuid.isEmpty() && QUuid(u) != QUuid(uuid)))
            c.fail("tool-identity", "the tunnel client registers with the UUID " + u + " instead of " + uuid);
    }
};

void echo(Src &s, Ctx &c)
{
    Stage g(s, c);
    g.serve(s.chance(1, 3));
    bool random = !s.chance(1, 4);
    QStringList args = g.identity("Server connection");
    if (s.chance(2, 3))
        args << s.pick<QString>({"-s", "--server"});
    if (random)
        args.prepend(s.pick<QString>({"-r", "--random"}));
    if (g.tls || s.chance(1, 4))
        args << s.pick<QString>({"-i", "--ignore-ssl"});
    if (s.chance(1, 6))
        args << s.pick<QString>({"--verbose", "--very-verbose"});
    args << s.pick<QString>({"-u", "--url"}) << g.url();
    g.start(args);
    g.awaitServer(20);
    int rounds = s.chance(1, 12) ? 2 : 1;
    for (int r = 0; r < rounds; r++) {
        if (r) {
            c.trace("the proxy restarts");
            g.peers.clear();
            SutOptions o = g.sut.opt;
            g.sut.stop();
            g.sut.start(o);
            g.awaitServer(20);
            c.label("reconnects");
        }
        QString su = g.server()["serverUuid"].toString();
        int n = s.range(1, 4);
        struct Client {
            Peer *p;
            QByteArray sent, got;
        };
        std::vector<Client> cl;
        for (int i = 0; i < n; i++) {
            Peer *p = g.connectPeer(s.pick<Tr>({Tr::Tcp, Tr::Unix}));
            p->send(request(1, "TunnelProxy.RegisterClient", {{"clientName", "client"}, {"clientUuid", g.newUuid(i)}, {"serverUuid", su}}));
            QJsonObject o = g.line(p);
            if (!o["params"].toObject()["tunnelProxyError"].toString().endsWith("NoError"))
                c.abandon("registration");
            cl.push_back({p, QByteArray(), QByteArray()});
        }
        // the echo of what was sent up to now
        auto settle = [&](const QString &when) {
            for (auto &x : cl) {
                if (!random) {
                    g.await([] { return false; }, 0.03);
                    if (!x.p->in.isEmpty())
                        c.fail("tool-echo", "the tunnel client echoes without being told to");
                    continue;
                }
                if (!g.await([&] { return x.p->in.size() >= x.sent.size() || x.p->closed(); }, 20) || x.p->in != x.sent) {
                    g.alive();
                    int k = 0;
                    while (k < x.p->in.size() && k < x.sent.size() && x.p->in[k] == x.sent[k])
                        k++;
                    c.fail("tool-echo", QString("%1: the echo has %2 bytes instead of %3 and differs at %4%5").arg(when).arg(x.p->in.size()).arg(x.sent.size()).arg(k).arg(x.p->closed() ? ", closed" : ""));
                }
            }
        };
        for (int k = s.range(1, 12); k > 0; k--) {
            Span sp(s);
            Client &x = cl[s.draw(cl.size())];
            switch (s.weighted({8, 2, 1})) {
            case 0: {
                QByteArray d = s.payload(s.chance(1, 8) ? 60000 : 600);
                if (d.isEmpty())
                    break;
                c.trace(QString("client %1 sends %2 bytes").arg(&x - &cl[0]).arg(d.size()));
                x.p->send(d);
                x.sent += d;
                break;
            }
            case 1: settle("in between"); break;
            default: {
                // leaves; its place is taken by another
                settle("before a client leaves");
                c.trace(QString("client %1 leaves").arg(&x - &cl[0]));
                x.p->close();
                Peer *p = g.connectPeer(Tr::Tcp);
                p->send(request(1, "TunnelProxy.RegisterClient", {{"clientName", "client"}, {"clientUuid", g.newUuid(20 + k)}, {"serverUuid", su}}));
                if (!g.line(p)["params"].toObject()["tunnelProxyError"].toString().endsWith("NoError"))
                    c.abandon("registration");
                x.p = p;
                x.sent.clear();
            }
            }
        }
        settle("at the end");
        g.alive();
    }
    c.label("echo servers");
    c.label("TLS", g.tls);
    c.nontrivial();
}

void client(Src &s, Ctx &c)
{
    Stage g(s, c);
    g.serve(s.chance(1, 3));
    Peer *sv = g.connectPeer(s.chance(1, 2) ? Tr::Tcp : Tr::Unix);
    QString su = g.newUuid(1);
    sv->send(request(1, "TunnelProxy.RegisterServer", {{"serverName", "server"}, {"serverUuid", su}}));
    if (!g.line(sv)["params"].toObject()["tunnelProxyError"].toString().endsWith("NoError"))
        c.abandon("registration");
    bool random = s.chance(1, 2);
    QStringList args = g.identity("Client connection");
    args << s.pick<QString>({"-c", "--client"}) << "--server-uuid" << su;
    if (random)
        args.prepend(s.pick<QString>({"-r", "--random"}));
    if (g.tls || s.chance(1, 4))
        args << s.pick<QString>({"-i", "--ignore-ssl"});
    args << s.pick<QString>({"-u", "--url"}) << g.url();
    g.start(args);
    std::vector<Frame> all;
    auto more = [&] {
        for (auto &f : g.frames(sv))
            all.push_back(f);
    };
    if (!g.await([&] { more(); return !all.empty() || g.t.over(); }, 20) || all.empty()) {
        g.alive();
        c.fail("tool-connect", "the tunnel client does not register as a client\n" + QString::fromUtf8(g.t.out().right(1500)));
    }
    QJsonObject p = QJsonDocument::fromJson(all[0].data).object()["params"].toObject();
    g.checkIdentity(p["clientName"].toString(), p["clientUuid"].toString());
    int address = p["socketAddress"].toInt();
    QByteArray sent;
    for (int k = s.range(0, 4); k > 0; k--) {
        QByteArray d;
        for (int i = s.range(1, 300); i > 0; i--)
            d += char('a' + s.draw(26));
        c.trace(QString("the server sends %1 bytes").arg(d.size()));
        sv->send(slip(address, d));
        sent += d;
        g.await([] { return false; }, 0.05);
    }
    auto data = [&] {
        QByteArray d;
        for (auto &f : all)
            if (f.address == address)
                d += f.data;
        return d;
    };
    if (random) {
        if (!g.await([&] { more(); return data().size() >= 100 || g.t.over(); }, 10))
            c.fail("tool-random", "the tunnel client sends no random data");
        for (char ch : data())
            if (!isalnum(uchar(ch)))
                c.fail("tool-random", "the random data are " + hexs(data()));
    } else {
        g.await([] { return false; }, 1.6);
        more();
        if (!data().isEmpty())
            c.fail("tool-random", "the tunnel client sends data without being told to: " + hexs(data()));
        // what it prints
        auto printed = [&] {
            QByteArray d;
            for (const QByteArray &l : g.t.out().split('\n'))
                if (l.startsWith("Data received \"") && l.endsWith("\""))
                    d += l.mid(15, l.size() - 16);
            return d;
        };
        if (!g.await([&] { return printed().size() >= sent.size(); }, 10) || printed() != sent)
            c.fail("tool-print", "the tunnel client prints " + QString::fromUtf8(printed().left(300)) + " instead of " + QString::fromUtf8(sent.left(300)));
    }
    g.alive();
    more();
    for (auto &f : all)
        if (f.address != address && f.address != 0)
            c.fail("tool-random", "a frame for an unknown address");
    c.label(random ? "clients with random data" : "clients");
    c.label("TLS", g.tls);
    c.nontrivial();
}

// it must not talk to a proxy whose certificate it cannot verify
void untrusted(Src &s, Ctx &c)
{
    Stage g(s, c);
    g.serve(true);
    QStringList args = g.identity("x");
    bool asClient = s.chance(1, 2);
    if (asClient)
        args << "-c" << "--server-uuid" << g.newUuid(3);
    else
        args << "-s";
    if (s.chance(1, 2))
        args << "-r";
    if (s.chance(1, 3))
        args << "--verbose";
    args << "-u" << g.url();
    g.start(args);
    double t0 = vclock::realSecs();
    bool tried = false;
    while (vclock::realSecs() - t0 < (tried ? 0.7 : 5)) {
        QJsonObject st = g.statistics();
        if (!tried && st["totalClientCount"].toInt() > 0) {
            tried = true;
            t0 = vclock::realSecs();
        }
        for (const QJsonValue &e : st["tunnelConnections"].toArray())
            c.fail("tool-trust", "the tunnel client registers at a proxy with a self-signed certificate: " + QString::fromUtf8(QJsonDocument(e.toObject()).toJson(QJsonDocument::Compact)));
        g.await([] { return false; }, 0.02);
        if (g.t.out().contains("StateRegister"))
            c.fail("tool-trust", "the tunnel client talks to a proxy with a self-signed certificate\n" + QString::fromUtf8(g.t.out().right(1500)));
        if (!tried && vclock::realSecs() - t0 > 1.5)
            break;
    }
    g.t.over();
    g.t.checkHealth(c);
    c.label("untrusted proxies");
    c.nontrivial();
}

void usage(Src &s, Ctx &c)
{
    Stage g(s, c);
    g.serve(false);
    QStringList args = g.identity("x");
    bool ok = false;
    QString su = g.newUuid(3);
    switch (s.draw(6)) {
    case 0: args << "-s" << "-c" << "--server-uuid" << su; break;
    case 1: args << "-c"; break;
    case 2: args << "-c" << "--server-uuid" << s.pick<QString>({"x", "0", "{00000000-0000-0000-0000-000000000000}", "1234"}); break;
    case 3: args << s.pick<QString>({"-x", "--listen", "--port=4"}); break;
    case 4: args << "-s" << "-u" << "http://[::1:80"; break;
    default: ok = true; args << s.pick<QString>({"--version", "-v", "--help", "-h"}); break;
    }
    if (!args.contains("-u"))
        args << "-u" << g.url();
    g.start(args);
    if (!g.await([&] { return g.t.over(); }, 20))
        c.fail("tool-usage", "the tunnel client runs with " + args.join(' '));
    g.t.checkHealth(c);
    if ((WEXITSTATUS(g.t.status) == 0) != ok)
        c.fail("tool-usage", "the tunnel client ends with " + g.t.ending() + " with " + args.join(' '));
    if (g.t.out().isEmpty() && g.t.err().isEmpty())
        c.fail("tool-usage", "the tunnel client says nothing about " + args.join(' '));
    if (g.statistics()["totalClientCount"].toInt() != 0)
        c.fail("tool-usage", "the tunnel client connects");
    c.label("usage");
    c.nontrivial();
}

void run(Src &s, Ctx &c)
{
    switch (s.weighted({10, 3, 1, 2})) {
    case 0: echo(s, c); break;
    case 1: client(s, c); break;
    case 2: untrusted(s, c); break;
    default: usage(s, c); break;
    }
}
}

Property makeProperty()
{
    Property p;
    p.id = "C25";
    p.rule = "the tunnel client tool runs as a process against the real proxy: as an echo server with one to four clients which send generated bytes, leave and come back, also across a restart of the proxy; as a client of a server which checks who connects, what random data come and what is printed; against a proxy with a self-signed certificate without permission; with unusable arguments. Non-trivial: every case. Distinct by the arguments and the payloads.";
    p.assumptions = {"only tcp and ssl URLs", "no certificate of the test is trusted by the system", "1.6 s without data count as no random data (the tool sends every second)"};
    p.run = run;
    p.quickCases = 600;
    p.thoroughCases = 5000;
    return p;
}
