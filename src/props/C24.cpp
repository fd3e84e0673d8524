// C24: the server program: it serves what its configuration says or ends with a failure, writes its log file, and a
// signal ends it in good order at any moment.
#include "peer.h"
#include "sut.h"
#include "tool.h"
#include "vclock.h"
#include <QDir>
#include <QFile>
#include <QFileInfo>
#include <QJsonDocument>
#include <QJsonObject>
#include <QRegularExpression>
#include <QUuid>
#include <errno.h>
#include <memory>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>

namespace {

int serial = 0;

QByteArray slip(quint16 address, const QByteArray &data)
{
    QByteArray r;
    auto put = [&r](uchar b) {
        if (b == 0xC0)
            r += "\xDB\xDC";
        else if (b == 0xDB)
            r += "\xDB\xDD";
        else
            r += char(b);
    };
    put(uchar(address >> 8));
    put(uchar(address & 0xff));
    for (char ch : data)
        put(uchar(ch));
    return r + "\xC0";
}

QByteArray request(int id, const QString &method, const QJsonObject &params = QJsonObject())
{
    QJsonObject o;
    o["id"] = id;
    o["method"] = method;
    if (!params.isEmpty())
        o["params"] = params;
    return QJsonDocument(o).toJson(QJsonDocument::Compact) + "\n";
}

bool exists(const QString &f)
{
    struct stat st;
    return lstat(f.toLocal8Bit().constData(), &st) == 0;
}

struct Program {
    Src &s;
    Ctx &c;
    QString dir, unixPath, monitorPath, confPath, logPath, name;
    int tcpPort = 0, wsPort = 0;
    bool tls = false, log = false;
    std::unique_ptr<Tool> t;
    std::vector<std::unique_ptr<Peer>> peers;

    Program(Src &src, Ctx &ctx) : s(src), c(ctx)
    {
        dir = QString::fromStdString(c.scratch) + QString("/p%1").arg(serial++);
        QDir().mkpath(dir);
    }
    ~Program()
    {
        t.reset();
        peers.clear();
        QDir(dir).removeRecursively();
    }

    static bool portFree(int port)
    {
        int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
        setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        struct sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        a.sin_port = htons(quint16(port));
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        bool ok = bind(fd, (struct sockaddr *) &a, sizeof a) == 0 && listen(fd, 1) == 0;
        ::close(fd);
        return ok;
    }
    int port()
    {
        Sut ports(c);
        for (int i = 0; i < 100; i++) {
            int p = ports.nextPort();
            if (portFree(p))
                return p;
        }
        c.abandon("no free port");
    }

    QByteArray config(const QMap<QString, QString> &change = {})
    {
        QMap<QString, QString> v;
        v["ProxyServer/name"] = name;
        v["ProxyServer/writeLogs"] = "false";
        v["ProxyServer/logFile"] = dir + "/unused.log";
        v["ProxyServer/monitorSocket"] = monitorPath;
        v["ProxyServer/jsonRpcTimeout"] = "60000";
        v["ProxyServer/inactiveTimeout"] = "60000";
        v["SSL/enabled"] = tls ? "true" : "false";
        v["SSL/certificate"] = Sut::dataDir() + "/cert.pem";
        v["SSL/certificateKey"] = Sut::dataDir() + "/key.pem";
        v["SSL/certificateChain"] = "";
        v["UnixSocketServerTunnelProxy/unixSocketFileName"] = unixPath;
        v["WebSocketServerTunnelProxy/host"] = "127.0.0.1";
        v["WebSocketServerTunnelProxy/port"] = QString::number(wsPort);
        v["TcpServerTunnelProxy/host"] = "127.0.0.1";
        v["TcpServerTunnelProxy/port"] = QString::number(tcpPort);
        for (const QString &k : change.keys())
            v[k] = change[k];
        QByteArray r;
        QString group;
        for (const QString &k : v.keys()) {
            QString g = k.section('/', 0, 0);
            if (g != group)
                r += "[" + g.toUtf8() + "]\n";
            group = g;
            r += k.section('/', 1).toUtf8() + "=" + v[k].toUtf8() + "\n";
        }
        return r;
    }
    static void write(const QString &f, const QByteArray &d)
    {
        QFile q(f);
        if (q.open(QIODevice::WriteOnly)) {
            q.write(d);
            q.close();
        }
    }
    void prepare()
    {
        unixPath = dir + "/u";
        monitorPath = dir + "/m";
        confPath = dir + (s.chance(1, 4) ? "/the proxy.conf" : "/c.conf");
        tcpPort = port();
        wsPort = port();
        tls = s.chance(1, 3);
        name = QString("proxy-%1").arg(s.draw(1000));
    }
    void start(const QStringList &args)
    {
        t.reset(new Tool("the server program", "/server/nymea-remoteproxy"));
        t->start(c, args);
    }
    // waits at most 'limit' seconds for 'done'
    template<class F> bool await(F done, double limit)
    {
        double t0 = vclock::realSecs();
        while (!done()) {
            if (vclock::realSecs() - t0 > limit)
                return false;
            for (auto &p : peers)
                p->io();
            c.beat();
            nap(1);
        }
        return true;
    }
    Peer *connectPeer(Tr tr)
    {
        std::unique_ptr<Peer> p(new Peer(tr, tls && tr != Tr::Unix));
        if (!p->open(unixPath, tr == Tr::Tcp ? tcpPort : wsPort))
            return nullptr;
        peers.push_back(std::move(p));
        return peers.back().get();
    }
    bool line(Peer *p, QJsonObject &o, bool frame = false)
    {
        char end = frame ? '\xC0' : '\n';
        if (!await([&] { return p->in.contains(end) || p->closed(); }, 20) || !p->in.contains(end))
            return false;
        int i = p->in.indexOf(end);
        QByteArray l = p->in.left(i);
        p->in.remove(0, i + 1);
        if (frame)
            l.remove(0, 2);
        o = QJsonDocument::fromJson(l).object();
        return true;
    }
    void serving()
    {
        for (Tr tr : {Tr::Unix, Tr::Tcp, Tr::Ws}) {
            Peer *p = nullptr;
            bool there = await([&] { return (p = connectPeer(tr)) || t->over(); }, 20);
            if (t->over()) {
                t->checkHealth(c);
                c.fail("program-start", "the server program ends with " + t->ending() + "\n" + QString::fromUtf8(t->out().right(2000)));
            }
            if (!there)
                c.fail("program-start", QString("the server program does not listen for %1 connections\n").arg(trName(tr)) + QString::fromUtf8(t->out().right(2000)));
            if (!await([&] { return p->ready() || p->closed(); }, 20) || p->closed())
                c.fail("program-start", QString("no %1 connection\n").arg(trName(tr)) + QString::fromUtf8(t->out().right(2000)));
            p->send(request(1, "RemoteProxy.Hello"));
            QJsonObject o;
            if (!line(p, o) || o["params"].toObject()["name"].toString() != name)
                c.fail("program-start", QString("no answer of the configured proxy on %1: ").arg(trName(tr)) + QString::fromUtf8(QJsonDocument(o).toJson(QJsonDocument::Compact)));
        }
        QJsonObject o = monitor();
        if (o["serverName"].toString() != name)
            c.fail("program-start", "the monitor reports " + QString::fromUtf8(QJsonDocument(o).toJson(QJsonDocument::Compact)));
    }
    QJsonObject monitor()
    {
        QString keep = unixPath;
        unixPath = monitorPath;
        Peer *p = nullptr;
        await([&] { return (p = connectPeer(Tr::Unix)) || t->over(); }, 20);
        unixPath = keep;
        QJsonObject o;
        if (p) {
            p->send("{\"method\":\"refresh\"}\n");
            line(p, o);
        }
        return o;
    }
    // connections with tunnels; returns the registered servers
    std::vector<std::pair<Peer *, int>> tunnels()
    {
        std::vector<std::pair<Peer *, int>> r;
        int n = s.range(1, 3);
        for (int i = 0; i < n; i++) {
            QString su = QUuid(uint(c.worker), ushort(serial), ushort(i), 1, 2, 3, 4, 5, 6, 7, 8).toString();
            Peer *sv = connectPeer(s.chance(1, 2) ? Tr::Tcp : Tr::Unix);
            if (!sv || !await([&] { return sv->ready() || sv->closed(); }, 20))
                c.abandon("connection");
            sv->send(request(1, "TunnelProxy.RegisterServer", {{"serverName", "server"}, {"serverUuid", su}}));
            QJsonObject o;
            if (!line(sv, o) || !o["params"].toObject()["tunnelProxyError"].toString().endsWith("NoError"))
                c.abandon("registration");
            for (int k = s.range(0, 3); k > 0; k--) {
                Peer *cl = connectPeer(s.pick<Tr>({Tr::Tcp, Tr::Unix, Tr::Ws}));
                if (!cl || !await([&] { return cl->ready() || cl->closed(); }, 20))
                    c.abandon("connection");
                cl->send(request(1, "TunnelProxy.RegisterClient", {{"clientName", "client"}, {"clientUuid", QUuid(uint(k), ushort(i + 1), 2, 77, 2, 3, 4, 5, 6, 7, 8).toString()}, {"serverUuid", su}}));
                if (!line(cl, o) || !line(sv, o, true))
                    c.abandon("registration");
                r.push_back({sv, o["params"].toObject()["socketAddress"].toInt()});
            }
            if (r.empty() || r.back().first != sv)
                r.push_back({sv, 0});
        }
        return r;
    }
    void ended(const QString &after)
    {
        double t0 = vclock::realSecs();
        if (!await([&] { return t->over(); }, 20))
            c.fail("program-hang", "the server program is still running 20 seconds after " + after + "\n" + QString::fromUtf8(t->out().right(600)));
        t->checkHealth(c);
        c.label("ends within 1 s", vclock::realSecs() - t0 < 1);
    }
    void nothingLeft(const QString &after)
    {
        for (const QString &f : {unixPath, monitorPath})
            if (exists(f))
                c.fail("program-left", "after " + after + " the socket file " + QFileInfo(f).fileName() + " is still there");
        if (!await([&] { for (auto &p : peers) if (!p->closed()) return false; return true; }, 10))
            c.fail("program-left", "after " + after + " a connection is still open");
        for (int p : {tcpPort, wsPort})
            if (!portFree(p))
                c.fail("program-left", QString("after %1 the port %2 is not free").arg(after, p == tcpPort ? "for TCP" : "for WebSocket"));
    }
};

QByteArray plainText(const QByteArray &o)
{
    QString t = QString::fromUtf8(o);
    t.remove(QRegularExpression("\x1b\\[[0-9;]*m"));
    t.replace(QRegularExpression("^ ([A-Z]) \\d{4}\\.\\d\\d\\.\\d\\d \\d\\d:\\d\\d:\\d\\d\\.\\d{3} \\| ", QRegularExpression::MultilineOption), " \\1 | ");
    return t.toUtf8();
}

// what the configuration cannot be used for
void refused(Src &s, Ctx &c)
{
    Program p(s, c);
    p.prepare();
    QMap<QString, QString> change;
    QStringList args;
    QString bad;
    QByteArray junk = s.bytes(s.range(0, 200));
    Program::write(p.dir + "/file", junk);
    bool conf = true;
    switch (s.weighted({2, 2, 2, 2, 2, 1})) {
    case 0: bad = "missing configuration file"; conf = false; break;
    case 1: bad = "missing certificate"; change["SSL/certificate"] = p.dir + "/none"; break;
    case 2: bad = "missing key"; change["SSL/certificateKey"] = p.dir + "/none"; break;
    case 3:
        bad = "log file below a file";
        if (s.chance(1, 2)) {
            args << "-l" << p.dir + "/file/x/log";
        } else {
            change["ProxyServer/writeLogs"] = "true";
            change["ProxyServer/logFile"] = p.dir + "/file/log";
        }
        break;
    case 4:
        bad = "log file is a directory";
        QDir().mkpath(p.dir + "/d");
        if (s.chance(1, 2)) {
            args << "-l" << p.dir + "/d";
        } else {
            change["ProxyServer/writeLogs"] = "true";
            change["ProxyServer/logFile"] = p.dir + "/d";
        }
        break;
    default: bad = "unknown option"; args << s.pick<QString>({"--tls", "-x", "--conf=/x"}); break;
    }
    if (conf)
        Program::write(p.confPath, p.config(change));
    args << "-c" << p.confPath;
    c.trace(bad + ": " + args.join(' '));
    p.start(args);
    bool up = false;
    if (!p.await([&] { return p.t->over() || (up = exists(p.unixPath)); }, 20) || up)
        c.fail("program-refuse", "the server program runs in spite of: " + bad);
    p.t->checkHealth(c);
    if (WEXITSTATUS(p.t->status) == 0)
        c.fail("program-refuse", "the server program ends with success in spite of: " + bad);
    if (exists(p.unixPath) || exists(p.monitorPath))
        c.fail("program-refuse", "the refused server program leaves a socket file: " + bad);
    if (Tool::slurp(p.dir + "/file") != junk)
        c.fail("program-refuse", "a file is overwritten: " + bad);
    c.label("refused configurations");
    c.nontrivial();
}

void information(Src &s, Ctx &c)
{
    Program p(s, c);
    p.prepare();
    Program::write(p.confPath, p.config());
    QString o = s.pick<QString>({"--version", "-v", "--help", "-h"});
    c.trace(o);
    p.start({"-c", p.confPath, o});
    p.ended(o);
    if (WEXITSTATUS(p.t->status) != 0 || p.t->out().trimmed().isEmpty())
        c.fail("program-status", o + " ends with " + p.t->ending() + " after " + QString::fromUtf8(p.t->out()));
    if (exists(p.unixPath))
        c.fail("program-status", o + " starts the proxy");
    c.label("information");
}

void life(Src &s, Ctx &c)
{
    Program p(s, c);
    p.prepare();
    QStringList args;
    QMap<QString, QString> change;
    QByteArray old;
    switch (s.weighted({3, 2, 2})) {
    case 0: break;
    case 1:
        p.log = true;
        p.logPath = p.dir + (s.chance(1, 3) ? "/new/directory/log" : "/log");
        args << s.pick<QString>({"-l", "--logging"}) << p.logPath;
        if (s.chance(1, 2))
            change["ProxyServer/writeLogs"] = "true"; // the option takes precedence
        break;
    default:
        p.log = true;
        p.logPath = p.dir + (s.chance(1, 3) ? "/new/log" : "/log");
        change["ProxyServer/writeLogs"] = "true";
        change["ProxyServer/logFile"] = p.logPath;
    }
    if (p.log && !p.logPath.contains("/new/") && s.chance(1, 2)) {
        old = "an older line\n";
        Program::write(p.logPath, old);
    }
    if (s.chance(1, 2))
        args << "-c" << p.confPath;
    else
        args.prepend("--configuration=" + p.confPath);
    if (s.chance(1, 6))
        args << "--verbose";
    Program::write(p.confPath, p.config(change));
    int lives = s.weighted({5, 2, 1}) + 1;
    for (int l = 0; l < lives; l++) {
        int moment = s.weighted({2, 3, 8});
        int sig = s.pick<int>({SIGTERM, SIGINT, SIGHUP, SIGQUIT});
        int second = s.chance(1, 4) ? s.pick<int>({SIGTERM, SIGINT, SIGHUP, SIGQUIT}) : 0;
        int delay = s.chance(1, 2) ? s.range(0, 5000) : s.range(0, 60000); // microseconds
        int gap = s.range(0, 3000);
        if (s.chance(1, 5)) {
            // left behind by a proxy which was killed
            int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
            for (const QString &f : {p.unixPath, p.monitorPath}) {
                struct sockaddr_un a;
                memset(&a, 0, sizeof a);
                a.sun_family = AF_UNIX;
                strncpy(a.sun_path, f.toLocal8Bit().constData(), sizeof a.sun_path - 1);
                if (bind(fd, (struct sockaddr *) &a, sizeof a) != 0)
                    c.abandon("stale socket");
                ::close(fd);
                fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
            }
            ::close(fd);
            c.trace("stale socket files");
            c.label("stale sockets");
            if (moment == 0)
                moment = 1;
        }
        c.trace(QString("life %1: %2%3").arg(l + 1).arg(args.join(' '), p.tls ? ", TLS" : ""));
        p.start(args);
        int covered = 0;
        if (moment == 0) {
            if (!p.await([&] { return !p.t->out().isEmpty() || p.t->over(); }, 20))
                c.abandon("no output");
            c.trace(QString("signal %1 at the start, after %2 us").arg(sig).arg(delay));
            usleep(useconds_t(delay));
        } else {
            p.serving();
            covered = p.t->out().size();
            if (moment == 1) {
                c.trace(QString("signal %1 to the idle proxy").arg(sig));
                if (s.chance(1, 2))
                    p.tunnels();
            } else {
                auto tun = p.tunnels();
                int style = s.weighted({3, 3, 2});
                int n = s.range(1, style == 2 ? 60 : 2000); // what is logged is a multiple of it
                c.trace(QString("%1 tunnels, %2 requests or frames of style %3, signal %4 after %5 us").arg(tun.size()).arg(n).arg(style).arg(sig).arg(delay));
                for (auto &x : tun) {
                    QByteArray b;
                    QByteArray one;
                    if (style == 0 || !x.second)
                        one = slip(0, request(5, "TunnelProxy.Ping", {{"timestamp", 5}}));
                    else if (style == 1)
                        one = slip(quint16(x.second), QByteArray(s.range(1, 300), 'x'));
                    else
                        one = slip(quint16(x.second), QByteArray(5, 'y')) + slip(0, request(5, "RemoteProxy.Introspect"));
                    for (int i = 0; i < n && b.size() < 200000; i++)
                        b += one;
                    x.first->send(b);
                    if (s.chance(1, 3))
                        x.first->paused = true;
                }
                double t0 = vclock::realSecs();
                while (vclock::realSecs() - t0 < delay / 1e6)
                    for (auto &x : p.peers)
                        x->io();
                c.label("signals in traffic");
            }
        }
        if (!p.t->over())
            kill(p.t->pid, sig);
        if (second) {
            usleep(useconds_t(gap));
            c.trace(QString("signal %1 after %2 us").arg(second).arg(gap));
            if (!p.t->over())
                kill(p.t->pid, second);
            c.label("second signals");
        }
        QString after = QString("signal %1%2").arg(strsignal(sig), moment == 0 ? " at the start" : moment == 1 ? "" : " in traffic");
        for (auto &x : p.peers)
            x->paused = false;
        p.ended(after);
        if (WEXITSTATUS(p.t->status) != 0)
            c.fail("program-status", "after " + after + " the server program ends with " + p.t->ending());
        p.nothingLeft(after);
        p.peers.clear();
        QByteArray out = p.t->out();
        if (p.log) {
            QByteArray log = Tool::slurp(p.logPath);
            if (!log.startsWith(old))
                c.fail("program-log", "the log file does not keep its older lines");
            QByteArray a = plainText(log.mid(old.size())), b = plainText(out);
            if (!b.endsWith(a)) {
                QList<QByteArray> x = a.split('\n'), y = b.split('\n');
                int i = 0;
                while (i < x.size() && i < y.size() && x[x.size() - 1 - i] == y[y.size() - 1 - i])
                    i++;
                c.fail("program-log", QString("the log file differs from the output %1 lines before the end: '%2' instead of '%3'").arg(i).arg(QString::fromUtf8(x.value(x.size() - 1 - i)), QString::fromUtf8(y.value(y.size() - 1 - i))));
            }
            if (covered && (a.isEmpty() || a.size() < plainText(out.mid(covered)).size()))
                c.fail("program-log", "the log file does not contain everything since the start");
            old = log;
            c.label("log files compared");
        } else if (exists(p.dir + "/unused.log")) {
            c.fail("program-log", "a log file is written although it is not enabled");
        }
        c.label("lives");
    }
    c.nontrivial();
}

void run(Src &s, Ctx &c)
{
    switch (s.weighted({9, 3, 1})) {
    case 0: life(s, c); break;
    case 1: refused(s, c); break;
    default: information(s, c); break;
    }
}
}

Property makeProperty()
{
    Property p;
    p.id = "C24";
    p.rule = "the server program runs as a process with a generated configuration file and command line: one to three lives in a row, each of which must answer on all four endpoints, ended by one or two of SIGTERM, SIGINT, SIGHUP and SIGQUIT right after its first output, while idle, or 0 to 60 ms after up to 200 KB of requests and frames on generated tunnels; the log file is compared with the output; unusable configurations must be refused. Non-trivial: a life or a refusal (not --help/--version). Distinct by the options, the traffic and the moment.";
    p.assumptions = {"the log file may start with any message up to the moment the program serves", "the signals count from the first output on"};
    p.run = run;
    p.quickCases = 500;
    p.thoroughCases = 8000;
    return p;
}
