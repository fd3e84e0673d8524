// C20: the monitor tool shows what the proxy reports. The tool itself is run, against a scripted monitor endpoint or
// the real proxy, and in a terminal of ours.
#include "mix.h"
#include "tool.h"
#include "vclock.h"
#include <QDateTime>
#include <QJsonArray>
#include <QJsonDocument>
#include <errno.h>
#include <fcntl.h>
#include <linux/sockios.h>
#include <poll.h>
#include <signal.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

namespace {

struct Monitor : Tool {
    Monitor() : Tool("the monitor tool", "/monitor/nymea-remoteproxy-monitor") {}
};

// ---- a terminal: enough of a VT100 ----

struct Screen {
    int rows, cols, y = 0, x = 0, top, bottom;
    bool wrap = false, graphics[2] = {false, false};
    int charset = 0;
    int sy = 0, sx = 0;
    std::vector<std::vector<ushort>> cell;
    QString unknown;
    Screen(int r, int c) : rows(r), cols(c), top(0), bottom(r - 1), cell(size_t(r), std::vector<ushort>(size_t(c), ' ')) {}

    void scrollUp()
    {
        cell.erase(cell.begin() + top);
        cell.insert(cell.begin() + bottom, std::vector<ushort>(size_t(cols), ' '));
    }
    void lineFeed()
    {
        if (y == bottom)
            scrollUp();
        else if (y < rows - 1)
            y++;
    }
    void put(uchar ch)
    {
        if (wrap) {
            x = 0;
            lineFeed();
            wrap = false;
        }
        ushort u = ch;
        if (graphics[charset]) {
            switch (ch) {
            case 'q': u = 0x2500; break; // horizontal
            case 'x': u = 0x2502; break; // vertical
            case 't': u = 0x251c; break; // left tee
            case 'm': u = 0x2514; break; // lower left
            case 'w': u = 0x252c; break; // top tee
            }
        }
        cell[size_t(y)][size_t(x)] = u;
        if (x == cols - 1)
            wrap = true;
        else
            x++;
    }
    void erase(int y0, int x0, int y1, int x1)
    {
        for (int i = y0; i <= y1; i++)
            for (int j = (i == y0 ? x0 : 0); j <= (i == y1 ? x1 : cols - 1); j++)
                cell[size_t(i)][size_t(j)] = ' ';
    }
    void feed(const QByteArray &d)
    {
        for (int i = 0; i < d.size(); i++) {
            uchar ch = uchar(d[i]);
            if (ch >= 32 && ch != 127) {
                put(ch);
                continue;
            }
            switch (ch) {
            case 0: case 7: case 127: break;
            case 8: if (x > 0) x--; wrap = false; break;
            case 9: x = std::min(cols - 1, (x / 8 + 1) * 8); break;
            case 10: case 11: case 12: lineFeed(); wrap = false; break;
            case 13: x = 0; wrap = false; break;
            case 14: charset = 1; break;
            case 15: charset = 0; break;
            case 27: {
                if (i + 1 >= d.size())
                    return;
                uchar n = uchar(d[++i]);
                if (n == '[') {
                    QByteArray par;
                    i++;
                    while (i < d.size() && uchar(d[i]) < 0x40)
                        par += d[i++];
                    if (i >= d.size())
                        return;
                    csi(par, d[i]);
                } else if (n == '(' || n == ')') {
                    if (++i < d.size())
                        graphics[n == ')'] = d[i] == '0';
                } else if (n == 'M') {
                    if (y == top) {
                        cell.erase(cell.begin() + bottom);
                        cell.insert(cell.begin() + top, std::vector<ushort>(size_t(cols), ' '));
                    } else if (y > 0) {
                        y--;
                    }
                } else if (n == 'D') {
                    lineFeed();
                } else if (n == 'E') {
                    x = 0;
                    lineFeed();
                } else if (n == '7') {
                    sy = y;
                    sx = x;
                } else if (n == '8') {
                    y = sy;
                    x = sx;
                } else if (n != '=' && n != '>' && n != 'H') {
                    unknown += QString(" ESC %1").arg(QChar(n));
                }
                break;
            }
            default: unknown += QString(" %1").arg(ch);
            }
        }
    }
    void csi(const QByteArray &par, char f)
    {
        if (par.startsWith('?'))
            return;
        QList<QByteArray> l = par.split(';');
        auto arg = [&](int i, int def) { return i < l.size() && l[i].toInt() > 0 ? l[i].toInt() : def; };
        wrap = false;
        switch (f) {
        case 'H': case 'f':
            y = std::min(rows, arg(0, 1)) - 1;
            x = std::min(cols, arg(1, 1)) - 1;
            break;
        case 'A': y = std::max(0, y - arg(0, 1)); break;
        case 'B': y = std::min(rows - 1, y + arg(0, 1)); break;
        case 'C': x = std::min(cols - 1, x + arg(0, 1)); break;
        case 'D': x = std::max(0, x - arg(0, 1)); break;
        case 'J':
            if (par == "2") erase(0, 0, rows - 1, cols - 1);
            else if (par == "1") erase(0, 0, y, x);
            else erase(y, x, rows - 1, cols - 1);
            break;
        case 'K':
            if (par == "2") erase(y, 0, y, cols - 1);
            else if (par == "1") erase(y, 0, y, x);
            else erase(y, x, y, cols - 1);
            break;
        case 'r':
            top = arg(0, 1) - 1;
            bottom = std::min(rows, arg(1, rows)) - 1;
            y = x = 0;
            break;
        case 'm': case 'l': case 'h': case 'g': break;
        default: unknown += QString(" CSI %1").arg(QChar(f));
        }
    }
    QStringList text() const
    {
        QStringList r;
        for (auto &row : cell) {
            QString t;
            for (ushort u : row)
                t += QChar(u);
            r += t;
        }
        return r;
    }
};

// ---- what is to be shown ----

QString human(double v)
{
    static const char *unit[] = {"B", "KB", "MB", "GB", "TB"};
    int u = 0;
    while (v >= 1024 && u < 4) {
        v /= 1024;
        u++;
    }
    return QString::number(v, 'f', 2) + " " + unit[u];
}

QString date(double secs)
{
    return QDateTime::fromMSecsSinceEpoch(qint64(secs) * 1000, Qt::UTC).toString("dd.MM.yyyy hh:mm:ss");
}

// lines with blanks collapsed; empty lines and rulers do not count
QStringList normal(const QString &t)
{
    QStringList r;
    for (const QString &l : t.split('\n')) {
        QString k = l.simplified();
        if (k.isEmpty() || k.count('-') == k.size())
            continue;
        r += k;
    }
    return r;
}

QStringList expectedText(const QJsonObject &d)
{
    QJsonObject t = d["tunnelProxyStatistic"].toObject();
    QString o;
    auto n = [](const QJsonValue &v) { return QString::number(qint64(v.toDouble())); };
    o += "Server name:" + d["serverName"].toString() + "\n";
    o += "Server version:" + d["serverVersion"].toString() + "\n";
    o += "API version:" + d["apiVersion"].toString() + "\n";
    o += "Total client count:" + n(t["totalClientCount"]) + "\n";
    o += "Server connections:" + n(t["serverConnectionsCount"]) + "\n";
    o += "Client connections:" + n(t["clientConnectionsCount"]) + "\n";
    o += "Data troughput:" + human(t["troughput"].toDouble()) + " / s\n";
    QJsonObject tr = t["transports"].toObject();
    for (const QString &k : tr.keys())
        o += "Connections on " + k + ": " + n(tr[k]) + "\n";
    auto row = [](const QJsonObject &e, const char *uuid) {
        return date(e["timestamp"].toDouble()) + " | " + e[uuid].toString() + " | " + e["address"].toString() + " RX: " + human(e["rxDataCount"].toDouble())
            + " TX: " + human(e["txDataCount"].toDouble()) + " | " + e["name"].toString() + "\n";
    };
    for (const QJsonValue &v : t["tunnelConnections"].toArray()) {
        QJsonObject e = v.toObject();
        QJsonArray cl = e["clientConnections"].toArray();
        o += QString(cl.isEmpty() ? QString::fromUtf8("├──") : QString::fromUtf8("├┬─")) + row(e, "serverUuid");
        for (int i = 0; i < cl.size(); i++)
            o += QString(i == cl.size() - 1 ? QString::fromUtf8("│└─") : QString::fromUtf8("│├─")) + row(cl[i].toObject(), "clientUuid");
    }
    return normal(o);
}

// the rows of the interactive view, blanks collapsed, without the frame
QString expectedHeader(const QJsonObject &d)
{
    QJsonObject t = d["tunnelProxyStatistic"].toObject();
    auto n = [](const QJsonValue &v) { return QString::number(qint64(v.toDouble())); };
    return QString("Server: " + d["serverName"].toString() + " (" + d["serverVersion"].toString() + ") | API: " + d["apiVersion"].toString() + " | Total: " + n(t["totalClientCount"]) + " | Servers: "
                   + n(t["serverConnectionsCount"]) + " | Clients: " + n(t["clientConnectionsCount"]) + " | " + human(t["troughput"].toDouble()) + " / s | -- TunnelProxy --").simplified();
}

QStringList expectedRows(const QJsonObject &d)
{
    QStringList r;
    auto row = [](const QJsonObject &e) {
        return QString(date(e["timestamp"].toDouble()) + " | " + e["address"].toString() + " | RX: " + human(e["rxDataCount"].toDouble()) + " | TX: " + human(e["txDataCount"].toDouble())
            + " | " + e["name"].toString()).simplified();
    };
    for (const QJsonValue &v : d["tunnelProxyStatistic"].toObject()["tunnelConnections"].toArray()) {
        QJsonObject e = v.toObject();
        QJsonArray cl = e["clientConnections"].toArray();
        r += QString(cl.isEmpty() ? "S " : "S+ ") + row(e);
        for (int i = 0; i < cl.size(); i++)
            r += QString(i == cl.size() - 1 ? "c. " : "c ") + row(cl[i].toObject());
    }
    return r;
}

QStringList shownRows(const QStringList &screen, int from)
{
    QStringList r;
    for (int i = from; i < screen.size(); i++) {
        QString l = screen[i];
        QString k = l.mid(6).simplified();
        if (l.simplified().isEmpty())
            continue;
        QString head;
        ushort a = l[2].unicode(), b = l[4].unicode();
        if (a == 0x251c)
            head = b == 0x252c ? "S+ " : b == 0x2500 ? "S " : "? ";
        else if (a == 0x2502)
            head = b == 0x2514 ? "c. " : b == 0x251c ? "c " : "? ";
        else
            head = "? ";
        r += head + k;
    }
    return r;
}

// ---- the scripted endpoint ----

struct Endpoint {
    Ctx &c;
    Src &s;
    QString path;
    int lfd = -1, fd = -1;
    QByteArray in;
    bool eof = false;

    Endpoint(Ctx &ctx, Src &src) : c(ctx), s(src)
    {
        static int serial = 0;
        path = QString::fromStdString(c.scratch) + QString("/m%1").arg(++serial);
        lfd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
        struct sockaddr_un a;
        memset(&a, 0, sizeof a);
        a.sun_family = AF_UNIX;
        strncpy(a.sun_path, path.toLocal8Bit().constData(), sizeof a.sun_path - 1);
        unlink(path.toLocal8Bit());
        if (bind(lfd, (struct sockaddr *) &a, sizeof a) != 0 || listen(lfd, 5) != 0)
            c.abandon("no endpoint");
    }
    ~Endpoint()
    {
        hangUp();
        if (lfd >= 0)
            ::close(lfd);
        unlink(path.toLocal8Bit());
    }
    void hangUp()
    {
        if (fd >= 0)
            ::close(fd);
        fd = -1;
    }
    void poll1()
    {
        c.beat();
        if (fd < 0 && !eof) {
            fd = accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK);
            if (fd < 0)
                return;
        }
        char b[4096];
        for (;;) {
            ssize_t n = fd < 0 ? -1 : recv(fd, b, sizeof b, 0);
            if (n == 0) {
                eof = true;
                hangUp();
            }
            if (n <= 0)
                return;
            in.append(b, int(n));
        }
    }
    // one request line
    QJsonObject request(Tool &t, double limit = 10)
    {
        double t0 = vclock::realSecs();
        while (!in.contains('\n')) {
            poll1();
            t.readTty();
            if (t.over()) {
                t.checkHealth(c);
                c.fail("tool-request", "the monitor tool ends without a request: " + t.ending() + "\n" + QString::fromUtf8(t.err().left(500)));
            }
            if (vclock::realSecs() - t0 > limit)
                c.fail("tool-request", QString("no request of the monitor tool for %1 s; read so far: ").arg(limit) + hexs(in));
            nap(1);
        }
        int p = in.indexOf('\n');
        QByteArray line = in.left(p);
        in.remove(0, p + 1);
        QJsonParseError e;
        QJsonDocument d = QJsonDocument::fromJson(line, &e);
        if (e.error != QJsonParseError::NoError || !d.isObject())
            c.fail("tool-request", "the monitor tool requests " + hexs(line, 200));
        return d.object();
    }
    void checkRequest(const QJsonObject &r, bool all)
    {
        bool asked = r["params"].toObject()["printAll"].toBool();
        if (r["method"].toString() != "refresh" || asked != all)
            c.fail("tool-request", QString("the monitor tool requests %1 when %2 to show everything").arg(QString::fromUtf8(QJsonDocument(r).toJson(QJsonDocument::Compact)), all ? "asked" : "not asked"));
    }
    // each part is read before the next one is sent
    void send(Tool &t, const QByteArray &d, const std::vector<int> &cuts, bool waitForLast = true)
    {
        std::vector<int> ends = cuts;
        ends.push_back(d.size());
        int pos = 0;
        for (int e : ends) {
            QByteArray part = d.mid(pos, e - pos);
            pos = e;
            while (!part.isEmpty()) {
                double t0 = vclock::realSecs();
                ssize_t n = fd < 0 ? -1 : ::send(fd, part.constData(), size_t(part.size()), MSG_NOSIGNAL);
                if (n > 0)
                    part.remove(0, int(n));
                else if (fd < 0 || errno != EAGAIN)
                    return;
                while (!part.isEmpty() || (outstanding() > 0 && (waitForLast || pos < d.size()))) {
                    poll1();
                    t.readTty();
                    if (t.over() || fd < 0)
                        return;
                    if (vclock::realSecs() - t0 > 20)
                        c.fail("tool-stall", "the monitor tool does not read");
                    if (!part.isEmpty() && outstanding() == 0)
                        break;
                    nap(0);
                }
            }
        }
    }
    int outstanding()
    {
        int n = 0;
        if (fd < 0 || ioctl(fd, SIOCOUTQ, &n) != 0)
            return 0;
        return n;
    }
};

void awaitEnd(Ctx &c, Tool &t, const QString &what, double limit = 10)
{
    double t0 = vclock::realSecs();
    while (!t.over()) {
        c.beat();
        t.readTty();
        if (vclock::realSecs() - t0 > limit)
            c.fail("tool-hang", QString("the monitor tool is still running %1 s after %2; stdout so far: ").arg(limit).arg(what) + hexs(t.out(), 300));
        nap(1);
    }
    t.checkHealth(c);
}

struct Gen {
    Src &s;
    bool ascii;

    QString name(int max)
    {
        QString r;
        switch (s.weighted({3, 2, 1, 1})) {
        case 0: r = QString("nymea %1").arg(s.draw(1000)); break;
        case 1: r = ascii ? QString() : s.unicode(max); break;
        case 2: r = s.pick<QString>({"", "%1", "%5 %6", "a | b", "RX: 1.00 B", "}", "{\"a\":1}", "back\\slash", "100%"}); break;
        default: r = QString("n%1").arg(s.draw(100000)).repeated(s.range(1, 3)); break;
        }
        r.remove(QChar(0));
        r = r.left(max);
        if (!r.isEmpty() && r.at(r.size() - 1).isHighSurrogate())
            r.chop(1);
        return r;
    }
    QString uuid()
    {
        return QUuid::fromRfc4122(s.bytes(16).leftJustified(16, 'x')).toString();
    }
    double count()
    {
        switch (s.weighted({3, 3, 2, 2, 1})) {
        case 0: return double(s.draw(1024));
        case 1: return double(s.draw(4u << 20));
        case 2: return double(s.pick<qint64>({1023, 1024, 1025, 1048575, 1048576, 1073741823, 1073741824, 2147483647, 2147483648LL, 2147483649LL, 4294967295LL, 4294967296LL, 1099511627775LL, 1099511627776LL}));
        case 3: return double(s.draw(quint64(1) << 33));
        default: return double(s.draw(quint64(1) << 50));
        }
    }
    double stamp() { return s.chance(1, 4) ? double(s.draw(quint64(1) << 32)) : double(1700000000 + s.draw(100000000)); }
    QString address() { return s.pick<QString>({"127.0.0.1", "10.10.10.1", "192.168.178.123", "2001:db8::1234:5678", "::1", "fe80::1234:5678:9abc:def0%eth0", ""}); }
    QJsonObject entry(const char *uuidKey)
    {
        QJsonObject e;
        e["id"] = uuid();
        e["address"] = address();
        e["timestamp"] = stamp();
        e["name"] = name(ascii ? 20 : 60);
        e[uuidKey] = uuid();
        e["rxDataCount"] = count();
        e["txDataCount"] = count();
        return e;
    }
    QJsonObject doc(int maxRows)
    {
        QJsonObject d, t, tr;
        d["serverName"] = name(ascii ? 20 : 80);
        d["serverVersion"] = QString("%1.%2.%3").arg(s.draw(3)).arg(s.draw(20)).arg(s.draw(20));
        d["apiVersion"] = QString("0.%1").arg(s.draw(12));
        auto small = [&] { return double(s.chance(1, 8) ? s.draw(2147483648u) : s.draw(300)); };
        t["totalClientCount"] = small();
        t["serverConnectionsCount"] = small();
        t["clientConnectionsCount"] = small();
        t["troughput"] = count();
        for (const char *n : {"TCP", "WebSocket", "UnixSocket", "SSL"})
            if (s.chance(2, 3))
                tr[n] = small();
        t["transports"] = tr;
        QJsonArray l;
        int rows = 0, servers = s.size(maxRows);
        for (int i = 0; i < servers && rows < maxRows; i++) {
            QJsonObject e = entry("serverUuid");
            rows++;
            QJsonArray cl;
            for (int k = s.chance(1, 3) ? 0 : s.size(8); k > 0 && rows < maxRows; k--, rows++)
                cl.append(entry("clientUuid"));
            e["clientConnections"] = cl;
            l.append(e);
        }
        t["tunnelConnections"] = l;
        d["tunnelProxyStatistic"] = t;
        return d;
    }
    std::vector<int> cuts(const QByteArray &d)
    {
        std::vector<int> r;
        int n = s.pick<int>({0, 1, 1, 2, 5, 12});
        for (int i = 0; i < n; i++) {
            switch (s.weighted({3, 2, 2})) {
            case 0: r.push_back(int(s.draw(quint64(d.size())))); break;
            case 1: r.push_back(d.size() - s.range(1, std::min(4, d.size()))); break;
            default: { // behind a closing brace
                int p = d.indexOf('}', int(s.draw(quint64(d.size()))));
                if (p >= 0)
                    r.push_back(p + 1);
            }
            }
        }
        std::sort(r.begin(), r.end());
        return r;
    }
};

QByteArray compact(const QJsonObject &d)
{
    return QJsonDocument(d).toJson(QJsonDocument::Compact) + "\n";
}

void succeeded(Ctx &c, Tool &t)
{
    if (!WIFEXITED(t.status) || WEXITSTATUS(t.status) != 0)
        c.fail("tool-status", "the monitor tool has printed its report and ends with " + t.ending());
}

void compareText(Ctx &c, Tool &t, const QJsonObject &d)
{
    succeeded(c, t);
    QStringList got = normal(QString::fromUtf8(t.out())), want = expectedText(d);
    for (int i = 0; i < std::max(got.size(), want.size()); i++) {
        QString g = i < got.size() ? got[i] : "(nothing)", e = i < want.size() ? want[i] : "(nothing)";
        if (g != e)
            c.fail("tool-text", QString("line %1 of the report is\n  %2\ninstead of\n  %3").arg(i + 1).arg(g, e));
    }
}

void compareJson(Ctx &c, Tool &t, const QJsonObject &d)
{
    succeeded(c, t);
    QByteArray o = t.out();
    QJsonParseError e;
    QJsonDocument g = QJsonDocument::fromJson(o, &e);
    if (e.error != QJsonParseError::NoError)
        c.fail("tool-json", "the output is no JSON document (" + e.errorString() + "): " + QString::fromUtf8(o.left(600)));
    if (g.object() != d)
        c.fail("tool-json", "the printed document\n" + QString::fromUtf8(g.toJson(QJsonDocument::Compact)).left(1500) + "\nis not the one the proxy sent\n" + QString::fromUtf8(compact(d)).left(1500));
}

QStringList options(Src &s, const QString &path, bool json, bool all, bool nonInteractive)
{
    QStringList a;
    if (nonInteractive)
        a << s.pick<QString>({"-n", "--non-interactive"});
    if (json)
        a << s.pick<QString>({"-j", "--json"});
    if (all)
        a << s.pick<QString>({"-a", "--all"});
    if (s.chance(1, 2))
        a << "-s" << path;
    else
        a.prepend("--socket=" + path);
    return a;
}

void scripted(Src &s, Ctx &c)
{
    bool json = s.chance(2, 5), all = s.chance(1, 2);
    bool non = !json || s.chance(1, 2);
    Gen g{s, false};
    QJsonObject d = g.doc(s.chance(1, 6) ? 400 : 12);
    QByteArray wire = compact(d);
    std::vector<int> cuts = g.cuts(wire);
    c.trace(QString("%1 report of %2 bytes in %3 chunks%4, server name %5").arg(json ? "JSON" : "text").arg(wire.size()).arg(cuts.size() + 1).arg(all ? ", everything" : "", d["serverName"].toString()));
    c.trace(QString::fromUtf8(wire.left(3000)));
    for (int k : cuts)
        c.trace(QString("  cut at %1").arg(k));
    Endpoint e(c, s);
    Monitor t;
    t.start(c, options(s, e.path, json, all, non));
    e.checkRequest(e.request(t), all);
    bool leave = s.chance(1, 4);
    if (leave)
        c.trace("and hangs up");
    e.send(t, wire, cuts, !leave);
    if (leave) {
        e.hangUp();
        e.eof = true;
    }
    awaitEnd(c, t, "the report");
    if (json)
        compareJson(c, t, d);
    else
        compareText(c, t, d);
    c.label(json ? "JSON reports" : "text reports");
    c.label("cut reports", !cuts.empty());
    c.label("large reports", wire.size() > 20000);
    c.nontrivial();
}

// the proxy goes away before the report is complete
void lost(Src &s, Ctx &c)
{
    bool json = s.chance(1, 3);
    Gen g{s, false};
    QByteArray wire = compact(g.doc(6));
    int mode = s.weighted({2, 2, 1});
    Endpoint e(c, s);
    Monitor t;
    if (mode == 2) {
        ::close(e.lfd);
        e.lfd = -1;
        c.trace("nobody listens");
        t.start(c, options(s, e.path, json, false, true));
    } else {
        t.start(c, options(s, e.path, json, false, true));
        e.checkRequest(e.request(t), false);
        int n = mode == 0 ? 0 : int(s.draw(quint64(wire.size() - 2)));
        c.trace(QString("the proxy goes away after %1 bytes of its report").arg(n));
        e.send(t, wire.left(n), {});
        e.hangUp();
        e.eof = true;
    }
    awaitEnd(c, t, "the loss of the proxy");
    if (!t.out().isEmpty())
        c.fail("tool-text", "without a report the monitor tool prints " + hexs(t.out(), 300));
    if (WIFEXITED(t.status) && WEXITSTATUS(t.status) == 0)
        c.fail("tool-status", "the monitor tool ends with success without a report");
    c.label("losses");
    c.nontrivial();
}

// ---- interactive ----

void interactive(Src &s, Ctx &c)
{
    int rows = s.range(10, 60), cols = s.range(180, 250);
    Gen g{s, true};
    Endpoint e(c, s);
    Monitor t;
    c.trace(QString("a terminal of %1 lines and %2 columns").arg(rows).arg(cols));
    t.start(c, options(s, e.path, false, false, false), rows, cols);
    Screen scr(rows, cols);
    QByteArray held;
    int reports = s.range(1, c.tier == "thorough" ? 6 : 3);
    double last = 0;
    QJsonObject shown;
    for (int i = 0; i < reports; i++) {
        e.checkRequest(e.request(t), false);
        double now = vclock::realSecs();
        if (last && now - last < 0.5)
            c.fail("tool-request", QString("the next request comes after %1 s").arg(now - last));
        last = now;
        QJsonObject d = g.doc(rows - 5);
        QByteArray wire = held + compact(d);
        held.clear();
        if (s.chance(1, 4) && i + 1 < reports) {
            int n = s.range(1, std::min(wire.size() - 1, 3));
            held = wire.right(n);
            wire.chop(n);
        }
        std::vector<int> cuts = g.cuts(wire);
        c.trace(QString("report %1 of %2 bytes in %3 chunks, %4 bytes held back").arg(i + 1).arg(wire.size()).arg(cuts.size() + 1).arg(held.size()));
        c.trace(QString::fromUtf8(wire.left(1500)));
        e.send(t, wire, cuts);
        if (held.isEmpty())
            shown = d;
        if (shown.isEmpty())
            continue;
        double t0 = vclock::realSecs();
        QString wantHead = expectedHeader(shown);
        QStringList wantRows = expectedRows(shown);
        for (;;) {
            e.poll1();
            t.readTty();
            scr.feed(t.screenBytes);
            t.screenBytes.clear();
            if (!scr.unknown.isEmpty())
                c.abandon("terminal sequence not understood:" + scr.unknown.toStdString());
            QStringList x = scr.text();
            QString head = x[1].mid(2).simplified();
            if (head.endsWith(" |"))
                head = head.left(head.size() - 2).simplified();
            QStringList got = shownRows(x, 3);
            if (head == wantHead && got == wantRows)
                break;
            if (t.over()) {
                t.checkHealth(c);
                c.fail("tool-status", "the interactive monitor ends with " + t.ending());
            }
            if (vclock::realSecs() - t0 > 8) {
                if (head != wantHead)
                    c.fail("tool-screen", "the header is\n  " + head + "\ninstead of\n  " + wantHead);
                for (int k = 0; k < std::max(got.size(), wantRows.size()); k++)
                    if (got.value(k) != wantRows.value(k))
                        c.fail("tool-screen", QString("row %1 is\n  %2\ninstead of\n  %3\n(report %4)").arg(k + 1).arg(got.value(k), wantRows.value(k)).arg(i + 1));
            }
            nap(5);
        }
        c.label("screens compared");
    }
    if (s.chance(1, 2)) {
        c.trace("escape");
        if (::write(t.tty, "\x1b", 1) != 1)
            c.abandon("terminal");
        awaitEnd(c, t, "the escape key");
    } else {
        c.trace("the proxy goes away");
        e.hangUp();
        e.eof = true;
        awaitEnd(c, t, "the loss of the proxy");
    }
    c.nontrivial();
}

// ---- the real proxy ----

void real(Src &s, Ctx &c)
{
    World w(s, c, {"tool", "stats"});
    SutOptions o;
    o.inactiveTimeout = 100000000;
    if (s.chance(1, 3))
        o.name = s.unicode(30).remove(QChar(0));
    w.start(o);
    Mix m;
    m.warmServers = s.range(0, 3);
    m.warmClients = s.range(0, 3);
    m.unixW = m.tcpW = m.wsW = 3;
    m.maxConns = 14;
    Mixer x(w, m);
    if (m.warmServers)
        x.warmup();
    for (int i = s.range(3, 20); i > 0; i--) {
        Span sp(s);
        x.op();
    }
    bool json = s.chance(1, 2), all = s.chance(1, 2);
    w.settle("before the tool");
    w.checkMonitor(all);
    QJsonObject d = w.monitorRequest(all ? "{\"method\":\"refresh\",\"params\":{\"printAll\":true}}" : "{\"method\":\"refresh\"}");
    Monitor t;
    t.start(c, options(s, w.sut.monitorPath, json, all, !json));
    c.trace(QString("the tool asks the proxy%1%2").arg(json ? ", JSON" : "", all ? ", everything" : ""));
    double t0 = vclock::realSecs();
    while (!t.over()) {
        w.spin(1);
        c.beat();
        if (vclock::realSecs() - t0 > 20)
            c.fail("tool-hang", "the monitor tool does not end");
    }
    t.checkHealth(c);
    if (json)
        compareJson(c, t, d);
    else
        compareText(c, t, d);
    w.finish();
    c.label("reports of the real proxy");
    c.nontrivial();
}

void run(Src &s, Ctx &c)
{
    switch (s.weighted({10, 2, 2, 3})) {
    case 0: scripted(s, c); break;
    case 1: lost(s, c); break;
    case 2: interactive(s, c); break;
    default: real(s, c); break;
    }
}
}

Property makeProperty()
{
    Property p;
    p.id = "C20";
    p.rule = "the monitor tool runs as a process: text and JSON reports of generated documents in generated chunks from a scripted endpoint, each chunk read before the next is sent; a proxy that goes away before its report; the interactive view in an emulated terminal over several reports; reports of the real proxy after a generated session. Non-trivial: every case. Distinct by the document and the cuts.";
    p.assumptions = {"runs of blanks, empty lines and rulers of dashes in the text are not compared", "the interactive view is judged with printable ASCII names and lines that fit the terminal (vt100)", "the exit status of JSON mode is not judged after a report", "names contain no NUL"};
    p.run = run;
    p.quickCases = 900;
    p.thoroughCases = 12000;
    return p;
}
