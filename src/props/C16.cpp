// C16: the configuration file is what the proxy runs with.
#include "engine.h"
#include "mix.h"
#include "proxyconfiguration.h"
#include "vclock.h"
#include <QDir>
#include <QFile>
#include <QFileInfo>
#include <QJsonDocument>
#include <QTcpServer>
#include <QSettings>
#include <QSslCertificate>
#include <QSslKey>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace remoteproxy;

namespace {
struct Key {
    const char *group, *name;
    enum Kind { Str, Bool, Int, Host, Port, File } kind;
    QVariant def;
};

const std::vector<Key> &keys()
{
    static const std::vector<Key> k = {
        {"ProxyServer", "name", Key::Str, "nymea-remoteproxy"},
        {"ProxyServer", "writeLogs", Key::Bool, false},
        {"ProxyServer", "logFile", Key::Str, "/var/log/nymea-remoteproxy.log"},
        {"ProxyServer", "logEngineEnabled", Key::Bool, false},
        {"ProxyServer", "monitorSocket", Key::Str, "/tmp/nymea-remoteproxy.monitor"},
        {"ProxyServer", "jsonRpcTimeout", Key::Int, 10000},
        {"ProxyServer", "inactiveTimeout", Key::Int, 8000},
        {"SSL", "enabled", Key::Bool, true},
        {"SSL", "certificate", Key::File, "/etc/ssl/certs/ssl-cert-snakeoil.pem"},
        {"SSL", "certificateKey", Key::File, "/etc/ssl/private/ssl-cert-snakeoil.key"},
        {"SSL", "certificateChain", Key::File, ""},
        {"UnixSocketServerTunnelProxy", "unixSocketFileName", Key::Str, "/run/nymea-remoteproxy.socket"},
        {"WebSocketServerTunnelProxy", "host", Key::Host, "127.0.0.1"},
        {"WebSocketServerTunnelProxy", "port", Key::Port, 2212},
        {"TcpServerTunnelProxy", "host", Key::Host, "127.0.0.1"},
        {"TcpServerTunnelProxy", "port", Key::Port, 2213},
    };
    return k;
}
QString full(const Key &k) { return QString(k.group) + "/" + k.name; }

typedef QMap<QString, QVariant> Values;

// one value in INI syntax, quoted unless it is plain
QByteArray iniValue(Src &s, const QString &v)
{
    bool plain = !v.isEmpty();
    for (QChar ch : v)
        plain &= ch.unicode() < 127 && (ch.isLetterOrNumber() || QString("-_./:").contains(ch));
    if (plain && s.chance(2, 3))
        return v.toLatin1();
    QByteArray o = "\"";
    bool hex = false; // a hex escape swallows following hex digits
    for (QChar ch : v) {
        ushort u = ch.unicode();
        bool isHex = u < 127 && isxdigit(u);
        if (u == '"' || u == '\\') {
            o += '\\';
            o += char(u);
            hex = false;
        } else if (u < 32 || u > 126 || (hex && isHex)) {
            o += "\\x" + QByteArray::number(u, 16);
            hex = true;
        } else {
            o += char(u);
            hex = false;
        }
    }
    return o + "\"";
}

int serial = 0;

struct Loader {
    Src &s;
    Ctx &c;
    QString dir;

    QString copy(const QString &from)
    {
        QString t = dir + "/" + (s.chance(1, 3) ? "dir ectory \xc3\xa4" : "f") + QString::number(serial++) + ".pem";
        QFile::copy(Sut::dataDir() + "/" + from, t);
        return t;
    }

    QVariant value(const Key &k, bool sane)
    {
        switch (k.kind) {
        case Key::Bool: return s.chance(1, 2);
        case Key::Int: return s.chance(1, 4) ? s.range(0, 2147483647) : s.range(100, 100000);
        case Key::Port: return s.range(1, 65535);
        case Key::Host: return s.pick<QString>({"127.0.0.1", "0.0.0.0", "127.0.0.2", "192.168.7.13", "::1", "::", "10.0.0.255", "fe80::1"});
        case Key::File: {
            QString n = k.name;
            if (!sane && s.chance(1, 6)) {
                // cannot be opened
                switch (s.draw(3)) {
                case 0: return dir + "/missing" + QString::number(serial++);
                case 1: return dir;
                default: {
                    QString l = dir + "/dangling" + QString::number(serial++);
                    QFile::link(dir + "/nowhere", l);
                    return l;
                }
                }
            }
            if (n == "certificate")
                return copy(s.chance(1, 2) ? "cert.pem" : "cert2.pem");
            if (n == "certificateKey")
                return copy(s.chance(1, 2) ? "key.pem" : "key2.pem");
            return s.chance(1, 2) ? QString() : copy("chain.pem");
        }
        default:
            if (QString(k.name) == "name")
                return s.chance(1, 2) ? s.unicode(50) : QString("proxy-%1").arg(s.draw(100));
            return "/tmp/" + (s.chance(1, 4) ? s.unicode(12).remove('/') : QString("x%1").arg(s.draw(1000)));
        }
    }

    Values generate(bool sane)
    {
        Values v;
        int density = s.pick<int>({50, 100, 85, 15, 0});
        for (const Key &k : keys()) {
            bool file = k.kind == Key::File && QString(k.name) != "certificateChain";
            if (s.chance(std::max(density, file ? 85 : 0), 100))
                v[full(k)] = value(k, sane);
        }
        return v;
    }

    QByteArray text(const Values &v)
    {
        QMap<QString, std::vector<QByteArray>> groups;
        QByteArray nl = s.chance(1, 4) ? "\r\n" : "\n";
        for (const Key &k : keys()) {
            if (!v.contains(full(k)))
                continue;
            QVariant x = v[full(k)];
            QByteArray t;
            if (k.kind == Key::Bool)
                t = x.toBool() ? s.pick<QByteArray>({"true", "true", "1", "True", "TRUE"}) : s.pick<QByteArray>({"false", "false", "0", "False", "FALSE"});
            else if (k.kind == Key::Int || k.kind == Key::Port)
                t = QByteArray::number(x.toInt());
            else if (x.toString().isEmpty())
                t = "";
            else
                t = iniValue(s, x.toString());
            QByteArray line = QByteArray(k.name) + (s.chance(1, 5) ? " = " : "=") + t;
            auto &g = groups[k.group];
            g.insert(g.begin() + long(s.draw(g.size() + 1)), line);
        }
        QByteArray out;
        if (s.chance(1, 3))
            out += "; a comment" + nl;
        std::vector<QString> order;
        for (const QString &g : groups.keys())
            order.insert(order.begin() + long(s.draw(order.size() + 1)), g);
        for (const QString &g : order) {
            out += "[" + g.toLatin1() + "]" + nl;
            for (const QByteArray &l : groups[g]) {
                if (s.chance(1, 10))
                    out += "; name=wrong" + nl;
                if (s.chance(1, 10))
                    out += "unknownKey=5" + nl;
                out += l + nl;
            }
            if (s.chance(1, 2))
                out += nl;
        }
        if (s.chance(1, 4))
            out += "[Other]" + nl + "name=other" + nl + "port=1" + nl + "enabled=false" + nl;
        return out;
    }

    QString write(const Values &v)
    {
        QString f = dir + "/" + QString::number(serial++) + (s.chance(1, 4) ? " conf \xc3\xbc.conf" : ".conf");
        QFile q(f);
        q.open(QIODevice::WriteOnly);
        q.write(text(v));
        q.close();
        return f;
    }

    static QVariant want(const Values &v, const Key &k) { return v.contains(full(k)) ? v[full(k)] : k.def; }
    static QVariant want(const Values &v, const char *key)
    {
        for (const Key &k : keys()) {
            if (full(k) == key)
                return want(v, k);
        }
        return QVariant();
    }
    static bool readable(const QString &f)
    {
        struct stat st;
        QByteArray n = f.toUtf8();
        return stat(n.constData(), &st) == 0 && !S_ISDIR(st.st_mode) && access(n.constData(), R_OK) == 0;
    }
    static bool loads(const Values &v)
    {
        QString chain = want(v, "SSL/certificateChain").toString();
        return readable(want(v, "SSL/certificate").toString()) && readable(want(v, "SSL/certificateKey").toString()) && (chain.isEmpty() || readable(chain));
    }

    void compare(const Values &v, ProxyConfiguration *p, const QString &file)
    {
        QMap<QString, QVariant> got;
        got["ProxyServer/name"] = p->serverName();
        got["ProxyServer/writeLogs"] = p->writeLogFile();
        got["ProxyServer/logFile"] = p->logFileName();
        got["ProxyServer/logEngineEnabled"] = p->logEngineEnabled();
        got["ProxyServer/monitorSocket"] = p->monitorSocketFileName();
        got["ProxyServer/jsonRpcTimeout"] = p->jsonRpcTimeout();
        got["ProxyServer/inactiveTimeout"] = p->inactiveTimeout();
        got["SSL/enabled"] = p->sslEnabled();
        got["SSL/certificate"] = p->sslCertificateFileName();
        got["SSL/certificateKey"] = p->sslCertificateKeyFileName();
        got["SSL/certificateChain"] = p->sslCertificateChainFileName();
        got["UnixSocketServerTunnelProxy/unixSocketFileName"] = p->unixSocketFileName();
        got["WebSocketServerTunnelProxy/host"] = p->webSocketServerTunnelProxyHost().toString();
        got["WebSocketServerTunnelProxy/port"] = p->webSocketServerTunnelProxyPort();
        got["TcpServerTunnelProxy/host"] = p->tcpServerTunnelProxyHost().toString();
        got["TcpServerTunnelProxy/port"] = p->tcpServerTunnelProxyPort();
        for (const Key &k : keys()) {
            if (got[full(k)].toString() != want(v, k).toString())
                c.fail("config-value", QString("%1 is '%2', %3 '%4'\n").arg(full(k), got[full(k)].toString(), v.contains(full(k)) ? "the file says" : "the default is", want(v, k).toString()) + content(file));
        }
        if (p->fileName() != file)
            c.fail("config-value", "fileName is " + p->fileName());
        // what TLS will use
        auto cert = [](const QString &f) {
            QFile q(f);
            q.open(QIODevice::ReadOnly);
            return QSslCertificate(&q, QSsl::Pem);
        };
        QSslConfiguration ssl = p->sslConfiguration();
        if (ssl.localCertificate() != cert(p->sslCertificateFileName()))
            c.fail("config-value", "the TLS certificate is not the one in the file\n" + content(file));
        QFile kf(p->sslCertificateKeyFileName());
        kf.open(QIODevice::ReadOnly);
        if (ssl.privateKey() != QSslKey(&kf, QSsl::Rsa, QSsl::Pem, QSsl::PrivateKey))
            c.fail("config-value", "the TLS key is not the one in the file\n" + content(file));
        QList<QSslCertificate> ca = ssl.caCertificates();
        if (!p->sslCertificateChainFileName().isEmpty() && (ca.size() != 1 || ca.first() != cert(p->sslCertificateChainFileName())))
            c.fail("config-value", "the TLS chain is not the one in the file\n" + content(file));
        if (p->sslCertificateChainFileName().isEmpty() && ca.contains(cert(Sut::dataDir() + "/chain.pem")))
            c.fail("config-value", "a TLS chain is left over from another configuration\n" + content(file));
    }
    static QString content(const QString &f)
    {
        QFile q(f);
        q.open(QIODevice::ReadOnly);
        return f + ":\n" + QString::fromLatin1(q.readAll());
    }
};

// listening sockets of this process: "a.b.c.d:port", and "unix" for each local one
// (QLocalServer binds under another name and renames: the path is not in /proc)
QStringList listening()
{
    QSet<QString> inodes;
    QDir d("/proc/self/fd");
    DIR *dp = opendir("/proc/self/fd");
    while (struct dirent *e = readdir(dp)) {
        char b[200];
        ssize_t n = readlink((QByteArray("/proc/self/fd/") + e->d_name).constData(), b, sizeof b - 1);
        if (n > 8 && !strncmp(b, "socket:[", 8))
            inodes << QString::fromLatin1(QByteArray(b + 8, int(n) - 9));
    }
    closedir(dp);
    QStringList r;
    for (QString f : {"/proc/self/net/tcp", "/proc/self/net/tcp6"}) {
        QFile q(f);
        if (!q.open(QIODevice::ReadOnly))
            continue;
        for (const QByteArray &l : q.readAll().split('\n')) {
            QList<QByteArray> p = l.simplified().split(' ');
            if (p.size() < 10 || p[3] != "0A" || !inodes.contains(p[9]))
                continue;
            QByteArray a = p[1].left(p[1].indexOf(':'));
            int port = p[1].mid(p[1].indexOf(':') + 1).toInt(nullptr, 16);
            QString host;
            if (a.size() == 8) {
                quint32 n = a.toUInt(nullptr, 16);
                host = QString("%1.%2.%3.%4").arg(n & 255).arg(n >> 8 & 255).arg(n >> 16 & 255).arg(n >> 24);
            } else {
                host = "[" + a + "]";
            }
            r << host + ":" + QString::number(port);
        }
    }
    QFile q("/proc/self/net/unix");
    q.open(QIODevice::ReadOnly);
    for (const QByteArray &l : q.readAll().split('\n')) {
        QList<QByteArray> p = l.simplified().split(' ');
        if (p.size() < 8 || !(p[3].toUInt(nullptr, 16) & 0x10000) || !inodes.contains(p[6]))
            continue;
        r << "unix";
    }
    r.sort();
    return r;
}

bool helloOn(Ctx &c, Tr tr, bool tls, const QString &path, const QString &host, int port, const QString &name, QByteArray *cert)
{
    Peer p(tr, tls);
    if (!p.open(path, port, host.toLatin1().constData()))
        return false;
    double t0 = vclock::realSecs();
    bool sent = false;
    while (vclock::realSecs() - t0 < 10) {
        Sut::spin();
        p.io();
        c.beat();
        if (p.ready() && !sent) {
            p.send("{\"id\":1,\"method\":\"RemoteProxy.Hello\"}\n");
            sent = true;
        }
        if (p.in.contains('\n') || p.closed())
            break;
    }
    *cert = p.peerCertificate();
    QString got = QJsonDocument::fromJson(p.in).object()["params"].toObject()["name"].toString();
    if (!p.in.contains('\n'))
        return false;
    if (got != name)
        c.fail("config-engine", QString("the proxy calls itself '%1', configured is '%2'").arg(got, name));
    p.close();
    for (int i = 0; i < 5; i++)
        Sut::spin();
    return true;
}

void engine(Src &s, Ctx &c, Loader &l)
{
    Sut ports(c);
    Values v = l.generate(true);
    v["SSL/certificate"] = l.copy("cert.pem");
    v["SSL/certificateKey"] = l.copy("key.pem");
    if (s.chance(1, 3)) {
        v["SSL/certificate"] = l.copy("cert2.pem");
        v["SSL/certificateKey"] = l.copy("key2.pem");
    }
    v["ProxyServer/logEngineEnabled"] = false;
    v["UnixSocketServerTunnelProxy/unixSocketFileName"] = l.dir + "/" + s.pick<QString>({"u", "unix socket", "s\xc3\xb6"}) + QString::number(serial++);
    v["ProxyServer/monitorSocket"] = l.dir + "/m" + QString::number(serial++);
    v["ProxyServer/inactiveTimeout"] = s.range(1000, 15000);
    QStringList want;
    Engine *e = Engine::instance();
    QString file;
    QString wsHost, tcpHost;
    int wsPort = 0, tcpPort = 0;
    bool tls = false;
    for (int attempt = 0;; attempt++) {
        // the port has to be free: try others
        if (attempt > 20)
            c.abandon("no-free-port");
        v["WebSocketServerTunnelProxy/port"] = ports.nextPort();
        v["TcpServerTunnelProxy/port"] = ports.nextPort();
        if (attempt == 0) {
            for (QString k : {"WebSocketServerTunnelProxy/host", "TcpServerTunnelProxy/host"}) {
                if (v.contains(k))
                    v[k] = s.pick<QString>({"127.0.0.1", "0.0.0.0", "127.0.0.2", "127.9.8.7"});
            }
        }
        file = l.write(v);
        ProxyConfiguration *p = new ProxyConfiguration();
        if (!p->loadConfiguration(file))
            c.fail("config-load", "loading fails\n" + Loader::content(file));
        wsHost = Loader::want(v, "WebSocketServerTunnelProxy/host").toString();
        tcpHost = Loader::want(v, "TcpServerTunnelProxy/host").toString();
        wsPort = Loader::want(v, "WebSocketServerTunnelProxy/port").toInt();
        tcpPort = Loader::want(v, "TcpServerTunnelProxy/port").toInt();
        tls = Loader::want(v, "SSL/enabled").toBool();
        // is the port free?
        auto isFree = [](const QString &h, int port) {
            QTcpServer t;
            return t.listen(QHostAddress(h), quint16(port));
        };
        if (!isFree(wsHost, wsPort) || !isFree(tcpHost, tcpPort)) {
            delete p;
            continue;
        }
        want = QStringList{wsHost + ":" + QString::number(wsPort), tcpHost + ":" + QString::number(tcpPort), "unix", "unix"};
        want.sort();
        c.trace(QString("engine with TLS %1, WebSocket %2:%3, TCP %4:%5, name '%6'").arg(tls).arg(wsHost).arg(wsPort).arg(tcpHost).arg(tcpPort).arg(Loader::want(v, "ProxyServer/name").toString()));
        e->start(p);
        for (int i = 0; i < 4; i++)
            Sut::spin();
        break;
    }
    struct Stop {
        ~Stop()
        {
            Engine::instance()->stop();
            for (int i = 0; i < 3; i++)
                Sut::spin();
        }
    } stop;
    QString name = Loader::want(v, "ProxyServer/name").toString();
    if (listening() != want)
        c.fail("config-engine", "the proxy listens on " + listening().join(", ") + ", configured is " + want.join(", ") + "\n" + Loader::content(file));
    if (e->serverName() != name)
        c.fail("config-engine", "Engine::serverName() is " + e->serverName());
    // 0.0.0.0 and 127.x are all reached through their own address, others are not reached
    QByteArray cert;
    QFile cf(v["SSL/certificate"].toString());
    cf.open(QIODevice::ReadOnly);
    QByteArray der = QSslCertificate(&cf, QSsl::Pem).toDer();
    struct T {
        Tr tr;
        QString host;
        int port;
    };
    for (const T &t : std::vector<T>{{Tr::Unix, "", 0}, {Tr::Tcp, tcpHost, tcpPort}, {Tr::Ws, wsHost, wsPort}}) {
        QString to = t.host == "0.0.0.0" ? QString("127.0.0.3") : t.host;
        bool enc = tls && t.tr != Tr::Unix;
        if (!helloOn(c, t.tr, enc, v["UnixSocketServerTunnelProxy/unixSocketFileName"].toString(), to, t.port, name, &cert))
            c.fail("config-engine", QString("no service on %1 %2:%3 with TLS %4\n").arg(trName(t.tr), to).arg(t.port).arg(enc) + Loader::content(file));
        if (enc && cert != der)
            c.fail("config-engine", QString("the certificate on %1 is not the configured one\n").arg(trName(t.tr)) + Loader::content(file));
    }
    {
        Peer m(Tr::Unix, false);
        bool there = m.open(v["ProxyServer/monitorSocket"].toString(), 0);
        m.close();
        for (int i = 0; i < 3; i++)
            Sut::spin();
        if (!there)
            c.fail("config-engine", "no monitor on the configured path\n" + Loader::content(file));
    }
    c.label(tls ? "engines with TLS" : "engines without TLS");
    // the configured inactivity timeout is in force
    qint64 t = v["ProxyServer/inactiveTimeout"].toInt();
    Peer p(Tr::Unix, false);
    if (p.open(v["UnixSocketServerTunnelProxy/unixSocketFileName"].toString(), 0)) {
        auto pump = [&]() {
            for (int i = 0; i < 8; i++) {
                Sut::spin();
                p.io();
            }
        };
        pump();
        vclock::advanceMs(t * 9 / 10);
        pump();
        if (p.closed())
            c.fail("config-engine", QString("closed for inactivity before %1 ms").arg(t));
        vclock::advanceMs(t * 2 / 10);
        pump();
        pump();
        if (!p.closed())
            c.fail("config-engine", QString("not closed for inactivity after the configured %1 ms").arg(t));
    }
    c.nontrivial();
}

void run(Src &s, Ctx &c)
{
    QString dir = QString::fromStdString(c.scratch) + "/c";
    QDir(dir).removeRecursively();
    QDir().mkpath(dir);
    Loader l{s, c, dir};
    if (s.chance(1, 4)) {
        engine(s, c, l);
        return;
    }
    std::vector<std::unique_ptr<ProxyConfiguration>> objects;
    int n = s.range(1, 6), ok = 0, bad = 0, reused = 0;
    for (int i = 0; i < n; i++) {
        Span sp(s);
        ProxyConfiguration *p;
        if (!objects.empty() && s.chance(1, 2)) {
            p = objects[s.draw(objects.size())].get();
            reused++;
        } else {
            objects.push_back(std::make_unique<ProxyConfiguration>());
            p = objects.back().get();
        }
        if (s.chance(1, 12)) {
            QString f = dir + "/none" + QString::number(serial++) + ".conf";
            c.trace("load a missing file");
            if (p->loadConfiguration(f))
                c.fail("config-load", "loading a missing file succeeds");
            bad++;
            continue;
        }
        Values v = l.generate(false);
        QString f = l.write(v);
        bool want = Loader::loads(v);
        QStringList given = v.keys();
        c.trace(QString("load a file with %1, %2").arg(given.join(" ")).arg(want ? "all files there" : "a file missing"));
        bool got = p->loadConfiguration(f);
        if (got != want)
            c.fail("config-load", QString("loading %1 but %2\n").arg(got ? "succeeds" : "fails", want ? "all files can be opened" : "a certificate, key or chain file cannot be opened") + Loader::content(f));
        if (got)
            l.compare(v, p, f);
        (got ? ok : bad)++;
    }
    c.label("files loaded", ok);
    c.label("files refused", bad);
    c.label("objects used again", reused);
    if (ok)
        c.nontrivial();
}

long enumerate(Ctx &c)
{
    // each key absent, each key alone; the shipped file
    long n = 0;
    QString dir = QString::fromStdString(c.scratch) + "/c";
    QDir().mkpath(dir);
    for (int with = 0; with < 2; with++) {
        for (size_t i = 0; i < keys().size(); i++) {
            Src s(0xabc + i, nullptr);
            Loader l{s, c, dir};
            Values v;
            for (size_t j = 0; j < keys().size(); j++) {
                const Key &k = keys()[j];
                bool need = k.kind == Key::File && QString(k.name) != "certificateChain";
                if (with ? i == j || need : i != j || need)
                    v[full(k)] = l.value(k, true);
            }
            QString f = l.write(v);
            ProxyConfiguration p;
            if (!p.loadConfiguration(f))
                c.fail("config-load", "loading fails\n" + Loader::content(f));
            l.compare(v, &p, f);
            n++;
        }
    }
    return n;
}
}

Property makeProperty()
{
    Property p;
    p.id = "C16";
    p.rule = "configuration files with any subset of the keys, values of any form (quoted, escaped, Unicode, spaces), any order, comments, unknown keys and sections, certificate files that exist or not, loaded into new and used configuration objects and compared getter by getter; a quarter of the cases starts the engine with the file and compares the set of listening sockets of the process, the service and TLS certificate on each endpoint, the server name and the inactivity timeout. Non-trivial: a file was loaded. Distinct by the keys given and outcomes.";
    p.assumptions = {"INI syntax as QSettings defines it: values with commas, quotes or other than ASCII letters are quoted", "the defaults are the ones the code documents in loadConfiguration"};
    p.run = run;
    p.enumerate = enumerate;
    p.quickCases = 4000;
    p.thoroughCases = 100000;
    return p;
}
