#include "world.h"
#include "vclock.h"
#include "version.h"
#include <QJsonArray>
#include <QJsonDocument>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

static const char *stName(Conn::State s)
{
    return s == Conn::None ? "unregistered" : s == Conn::Server ? "server" : s == Conn::Client ? "client" : "dead";
}

QString World::describe(const Conn &k) const
{
    return QString("#%1(%2 %3%4)").arg(k.idx).arg(trName(k.tr)).arg(stName(k.st)).arg(k.announced ? QString(" addr %1").arg(k.addr) : QString());
}

void World::fail(const std::string &cat, const QString &msg)
{
    QString full = msg + "\n  while: " + QString::fromStdString(step) + "\nhistory:\n" + c.traceText.right(4500);
    for (const std::string &j : judged) {
        if (cat.compare(0, j.size(), j) == 0)
            c.fail(cat, full);
    }
    if (getenv("VRP_JUDGE_ALL"))
        c.fail(cat, full);
    if (c.verbose)
        fprintf(stderr, "foreign %s: %s\n", cat.c_str(), qPrintable(full));
    c.abandon("foreign:" + cat);
}

void World::start(const SutOptions &o)
{
    sut.start(o);
    spin(3);
    if (uuidPool.isEmpty()) {
        for (int i = 0; i < 8; i++)
            uuidPool << QUuid(0xa0b1c2d0u + uint(i), 0x1234, 0x4a5b, 0x8c, 0xde, 1, 2, 3, 4, 5, uchar(i));
    }
}

void World::finish()
{
    step = "final";
    settle("final");
    for (auto &k : conns) {
        if (k->peer)
            k->peer->close();
    }
    sut.stop();
}

void World::spin(int n)
{
    for (int i = 0; i < n; i++) {
        Sut::spin();
        for (auto &k : conns) {
            if (k->peer && k->peer->opened())
                k->peer->io();
        }
    }
}

void World::advance(qint64 ms)
{
    vclock::advanceMs(ms);
    spin(4);
}

std::vector<int> World::live(bool withPoisoned) const
{
    std::vector<int> v;
    for (auto &k : conns) {
        if (k->st != Conn::Dead && (withPoisoned || !k->poisoned))
            v.push_back(k->idx);
    }
    return v;
}

std::vector<int> World::byState(Conn::State st) const
{
    std::vector<int> v;
    for (auto &k : conns) {
        if (k->st == st && !k->poisoned)
            v.push_back(k->idx);
    }
    return v;
}

std::vector<int> World::clientsOf(int server) const
{
    std::vector<int> v;
    for (auto &k : conns) {
        if (k->st == Conn::Client && k->owner == server)
            v.push_back(k->idx);
    }
    return v;
}

int World::holder(const QUuid &u) const
{
    for (auto &k : conns) {
        if ((k->st == Conn::Client || k->st == Conn::Server) && k->uuid == u)
            return k->idx;
    }
    return -1;
}

int World::serverFor(const QUuid &u) const
{
    int h = holder(u);
    return h >= 0 && conns[size_t(h)]->st == Conn::Server ? h : -1;
}

// ---------------------------------------------------------------- generators

Tr World::anyTransport(int u, int t, int w)
{
    switch (s.weighted({u, t, w})) {
    case 0: return Tr::Unix;
    case 1: return Tr::Tcp;
    default: return Tr::Ws;
    }
}

QUuid World::poolUuid()
{
    return uuidPool.at(int(s.draw(uint64_t(uuidPool.size()))));
}

QString World::spell(const QUuid &u)
{
    switch (s.weighted({5, 1, 1, 1})) {
    case 0: return u.toString();
    case 1: return u.toString().toUpper();
    case 2: return u.toString(QUuid::WithoutBraces);
    default: return u.toString(QUuid::WithoutBraces).toUpper();
    }
}

QString World::badUuid()
{
    static const std::vector<QString> bad = {"", "{00000000-0000-0000-0000-000000000000}", "foo", "{}", "00000000-0000-0000-0000-000000000000",
        "{a0b1c2d0-1234-4a5b-8cde-01020304050}", "{g0b1c2d0-1234-4a5b-8cde-010203040500}", "a0b1c2d0", "{a0b1c2d0-1234-4a5b-8cde}", "null"};
    return s.pick(bad);
}

QString World::freshName()
{
    QString n = s.chance(1, 3) ? s.unicode(60) : QString("n%1").arg(s.draw(1000));
    return n;
}

int World::freshId()
{
    switch (s.weighted({6, 1, 1, 1})) {
    case 0: return s.range(0, 100000);
    case 1: return 0;
    case 2: return -s.range(2, 100000);
    default: return 2147483647 - int(s.draw(3));
    }
}

QByteArray World::jsonString(const QString &str, bool ascii)
{
    QByteArray o = "\"";
    for (QChar ch : str) {
        ushort u = ch.unicode();
        if (u == '"' || u == '\\') {
            o.append('\\').append(char(u));
        } else if (u < 0x20 || (ascii && u > 126)) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", u);
            o += b;
        } else if (u < 0x80) {
            o.append(char(u));
        } else {
            // collect surrogate pairs
            o += QByteArray(); // handled below
            break;
        }
    }
    if (!ascii) {
        o = "\"";
        for (int i = 0; i < str.size(); i++) {
            ushort u = str[i].unicode();
            if (u == '"' || u == '\\') {
                o.append('\\').append(char(u));
            } else if (u < 0x20) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", u);
                o += b;
            } else if (QChar::isHighSurrogate(u) && i + 1 < str.size()) {
                o += str.mid(i, 2).toUtf8();
                i++;
            } else {
                o += QString(str[i]).toUtf8();
            }
        }
    }
    return o + "\"";
}

static QByteArray jsonValue(const QJsonValue &v, const QByteArray &ws, bool ascii)
{
    switch (v.type()) {
    case QJsonValue::String:
        return World::jsonString(v.toString(), ascii);
    case QJsonValue::Object: {
        QByteArray o = "{";
        bool first = true;
        QJsonObject ob = v.toObject();
        for (auto it = ob.begin(); it != ob.end(); ++it) {
            if (!first)
                o += "," + ws;
            first = false;
            o += ws + World::jsonString(it.key(), ascii) + ws + ":" + ws + jsonValue(it.value(), ws, ascii);
        }
        return o + ws + "}";
    }
    case QJsonValue::Array: {
        QByteArray o = "[";
        bool first = true;
        for (const QJsonValue &x : v.toArray()) {
            if (!first)
                o += ",";
            first = false;
            o += jsonValue(x, ws, ascii);
        }
        return o + "]";
    }
    case QJsonValue::Double: {
        double d = v.toDouble();
        if (d == qint64(d) && qAbs(d) < 9e15)
            return QByteArray::number(qint64(d));
        return QByteArray::number(d, 'g', 17);
    }
    case QJsonValue::Bool:
        return v.toBool() ? "true" : "false";
    default:
        return "null";
    }
}

// style bits: 0-5 key order, then whitespace and ASCII escapes
QByteArray World::render(int id, const QString &method, const QJsonObject &params, bool withParams, int style)
{
    if (style < 0)
        style = int(s.draw(48));
    static const std::vector<QByteArray> wss = {"", " ", "\n", "\t "};
    QByteArray ws = wss[size_t(style / 6 % 4)];
    if (ws == "\n")
        ws = " \n "; // never a brace, newline, brace sequence
    bool ascii = style / 24 % 2;
    QByteArray a = "\"id\"" + ws + ":" + ws + QByteArray::number(id);
    QByteArray m = "\"method\":" + ws + jsonString(method, ascii);
    QByteArray p = withParams ? "\"params\"" + ws + ":" + jsonValue(params, ws, ascii) : QByteArray();
    std::vector<QByteArray> parts;
    static const int order[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int i : order[style % 6]) {
        const QByteArray &x = i == 0 ? a : i == 1 ? m : p;
        if (!x.isEmpty())
            parts.push_back(x);
    }
    QByteArray o = "{" + ws;
    for (size_t i = 0; i < parts.size(); i++)
        o += (i ? QByteArray(",") + ws : QByteArray()) + parts[i];
    return o + ws + "}";
}

Chunks World::rawChunks(const QByteArray &bytes, int maxCuts)
{
    Chunks ch;
    int n = bytes.size();
    if (n < 2 || !s.chance(1, 2))
        return ch;
    int k = s.range(1, maxCuts);
    for (int i = 0; i < k; i++)
        ch.cuts.push_back(1 + int(s.draw(uint64_t(n - 1))));
    std::sort(ch.cuts.begin(), ch.cuts.end());
    ch.cuts.erase(std::unique(ch.cuts.begin(), ch.cuts.end()), ch.cuts.end());
    ch.pumpBetween = !s.chance(1, 3);
    return ch;
}

// Cut positions for JSON text. A cut directly behind a brace inside a string is left out (known finding, see DESIGN.md).
Chunks World::jsonChunks(const Conn &k, const QByteArray &json, bool keepNewline, int maxCuts)
{
    Chunks ch;
    if (json.size() < 2 || !s.chance(1, 2))
        return ch;
    std::vector<int> okCuts, braces;
    bool str = false, esc = false;
    bool ws = asWs(k);
    bool frag = ws && s.chance(1, 2);
    if (ws && s.chance(1, 8))
        ch.wsEmpty = s.range(1, 2);
    for (int i = 0; i + 1 < json.size(); i++) {
        uchar b = uchar(json[i]);
        if (str) {
            if (esc)
                esc = false;
            else if (b == '\\')
                esc = true;
            else if (b == '"')
                str = false;
        } else if (b == '"') {
            str = true;
        }
        if (str && b == '}')
            continue;
        if (keepNewline && i + 2 == json.size() && json[i + 1] == '\n')
            continue; // the newline of a registration belongs to its last chunk (known finding)
        if (ws && !frag && (uchar(json[i + 1]) & 0xC0) == 0x80)
            continue; // WebSocket messages are whole characters
        okCuts.push_back(i + 1);
        if (b == '}' || b == '{' || uchar(json[i + 1]) == '}' || b == '\n' || b >= 0x80)
            braces.push_back(i + 1);
    }
    if (okCuts.empty())
        return ch;
    int n = s.weighted({20, 1}) == 1 && json.size() < 300 ? int(okCuts.size()) : s.range(1, maxCuts);
    if (n == int(okCuts.size())) {
        ch.cuts = okCuts; // byte by byte
    } else {
        for (int i = 0; i < n; i++)
            ch.cuts.push_back(!braces.empty() && s.chance(1, 2) ? s.pick(braces) : s.pick(okCuts));
        std::sort(ch.cuts.begin(), ch.cuts.end());
        ch.cuts.erase(std::unique(ch.cuts.begin(), ch.cuts.end()), ch.cuts.end());
    }
    ch.pumpBetween = !s.chance(1, 4);
    ch.wsFragments = frag;
    ch.pingAfter = frag && s.chance(1, 2) ? int(s.draw(ch.cuts.size())) : -1;
    return ch;
}

// Tunnel data: WebSocket messages are cut at character boundaries, everything else anywhere.
Chunks World::dataChunks(const Conn &k, const QByteArray &bytes, int maxCuts)
{
    Chunks ch = rawChunks(bytes, maxCuts);
    if (asWs(k) && s.chance(1, 10))
        ch.wsEmpty = s.range(1, 2);
    if (!asWs(k) || ch.cuts.empty())
        return ch;
    ch.wsFragments = s.chance(1, 2);
    if (ch.wsFragments) {
        ch.pingAfter = s.chance(1, 2) ? int(s.draw(ch.cuts.size())) : -1;
        return ch;
    }
    for (int &p : ch.cuts) {
        while (p < bytes.size() && (uchar(bytes[p]) & 0xC0) == 0x80)
            p++;
    }
    ch.cuts.erase(std::unique(ch.cuts.begin(), ch.cuts.end()), ch.cuts.end());
    while (!ch.cuts.empty() && ch.cuts.back() >= bytes.size())
        ch.cuts.pop_back();
    return ch;
}

QByteArray World::payloadFor(const Conn &k, int max)
{
    return asWs(k) ? s.utf8Text(max) : s.payload(max);
}

// ---------------------------------------------------------------- operations

QByteArray World::slipFrame(quint16 addr, const QByteArray &payload)
{
    QByteArray plain, o;
    plain.append(char(addr >> 8)).append(char(addr & 0xff)).append(payload);
    o.reserve(plain.size() + plain.size() / 8 + 2);
    for (char ch : plain) {
        uchar b = uchar(ch);
        if (b == 0xC0)
            o.append(char(0xDB)).append(char(0xDC));
        else if (b == 0xDB)
            o.append(char(0xDB)).append(char(0xDD));
        else
            o.append(ch);
    }
    o.append(char(0xC0));
    return o;
}

int World::connect(Tr tr, bool wait)
{
    auto k = std::make_unique<Conn>();
    k->idx = int(conns.size());
    k->tr = tr;
    k->peer = std::make_unique<Peer>(tr, sut.opt.tls && tr != Tr::Unix);
    k->since = vclock::wallSecs();
    k->sinceMs = k->lastRxMs = vclock::nowMs();
    if (tr != Tr::Unix && !uniform) // the same session on all transports has to look the same
        k->peer->from = "127.0.0." + QByteArray::number(1 + k->idx * 37 % 253);
    if (!k->peer->open(sut.unixPath, tr == Tr::Tcp ? sut.tcpPort : sut.wsPort)) {
        step = "connect";
        fail("connect", QString("connection refused on ") + trName(tr));
    }
    conns.push_back(std::move(k));
    Conn &r = *conns.back();
    if (wait) {
        double t0 = vclock::realSecs();
        int n = 0;
        while (!r.peer->ready() || n < 5) {
            spin(1);
            n++;
            if (r.peer->closed() || vclock::realSecs() - t0 > 5)
                fail("connect", "no working connection on " + QString(trName(tr)) + ": " + r.peer->wsError);
            if (n > 50)
                usleep(100);
        }
    }
    return r.idx;
}

void World::transmit(Conn &k, const QByteArray &bytes, const Chunks &ch)
{
    k.lastRxMs = vclock::nowMs();
    if (k.tr == Tr::Ws && ch.wsEmpty == 1)
        k.peer->sendWs(QByteArray(), WsMode()); // a message without content is no data
    if (k.tr == Tr::Ws && (ch.wsFragments || ch.cuts.empty())) {
        WsMode m;
        m.cuts = ch.cuts;
        m.pingAfter = ch.pingAfter;
        k.peer->sendWs(bytes, m);
        return;
    }
    int pos = 0;
    for (size_t i = 0; i <= ch.cuts.size(); i++) {
        int end = i < ch.cuts.size() ? ch.cuts[i] : bytes.size();
        if (end <= pos && !bytes.isEmpty())
            continue;
        k.peer->send(bytes.mid(pos, end - pos));
        pos = end;
        if (i == 0 && k.tr == Tr::Ws && ch.wsEmpty == 2)
            k.peer->sendWs(QByteArray(), WsMode());
        if (i < ch.cuts.size() && ch.pumpBetween)
            spin(k.tr == Tr::Unix ? 2 : 4);
    }
}

QByteArray World::wrap(Conn &k, const QByteArray &json, bool newline)
{
    QByteArray j = json + (newline ? "\n" : "");
    return k.st == Conn::Server && k.slip ? slipFrame(0, j) : j;
}

static QString onlyKeys(const QJsonObject &o, const QStringList &keys)
{
    QStringList a = o.keys(), b = keys;
    a.sort();
    b.sort();
    return a == b ? QString() : "keys are " + a.join(",") + ", expected " + b.join(",");
}

QByteArray World::hello(Conn &k, int id)
{
    ExpReply e;
    e.id = id;
    e.cat = "reply";
    e.what = "Hello";
    QString name = sut.opt.name;
    e.check = [name](const QJsonObject &p) -> QString {
        QString r = onlyKeys(p, {"server", "name", "version", "apiVersion"});
        if (!r.isEmpty())
            return r;
        if (p["name"].toString() != name)
            return "wrong server name " + p["name"].toString();
        if (p["server"].toString() != SERVER_NAME_STRING || p["version"].toString() != SERVER_VERSION_STRING || p["apiVersion"].toString() != API_VERSION_STRING)
            return "wrong identification";
        return QString();
    };
    k.replies.push_back(e);
    return render(id, "RemoteProxy.Hello", QJsonObject(), s.chance(1, 3));
}

QByteArray World::introspect(Conn &k, int id)
{
    ExpReply e;
    e.id = id;
    e.cat = "reply";
    e.what = "Introspect";
    e.check = [](const QJsonObject &p) -> QString {
        QString r = onlyKeys(p, {"methods", "notifications", "types"});
        if (!r.isEmpty())
            return r;
        if (!p["methods"].toObject().contains("RemoteProxy.Hello") || !p["methods"].toObject().contains("TunnelProxy.RegisterClient"))
            return "methods missing";
        return QString();
    };
    k.replies.push_back(e);
    return render(id, "RemoteProxy.Introspect", QJsonObject(), s.chance(1, 3));
}

QByteArray World::ping(Conn &k, int id, const QJsonValue &ts)
{
    ExpReply e;
    e.id = id;
    e.cat = "reply";
    e.what = "Ping";
    e.check = [ts](const QJsonObject &p) -> QString {
        QString r = onlyKeys(p, {"timestamp"});
        if (!r.isEmpty())
            return r;
        return p["timestamp"] == ts ? QString() : QString("timestamp %1 came back as %2").arg(ts.toVariant().toString(), p["timestamp"].toVariant().toString());
    };
    k.replies.push_back(e);
    QJsonObject p;
    p["timestamp"] = ts;
    return render(id, "TunnelProxy.Ping", p);
}

void World::expectClose(Conn &k, const std::string &why)
{
    if (k.st == Conn::Dead)
        return;
    k.expectClosed = true;
    k.why = why;
    gone(k);
}

void World::gone(Conn &k)
{
    if (k.st == Conn::Server) {
        k.st = Conn::Dead;
        for (int i : clientsOf(k.idx)) {
            Conn &cl = at(i);
            cl.owner = -1;
            cl.lastOwner = k.idx;
            cl.expOut.clear();
            cl.expectClosed = true;
            cl.why = "cascade";
            cl.st = Conn::Dead;
        }
        k.notifs.clear();
    } else if (k.st == Conn::Client) {
        k.st = Conn::Dead;
        if (k.owner >= 0) {
            ExpNotif n;
            n.connected = false;
            n.client = k.idx;
            at(k.owner).notifs.push_back(n);
            k.lastOwner = k.owner;
        }
    } else {
        k.st = Conn::Dead;
    }
}

QByteArray World::regServer(Conn &k, int id, const QString &uuid, const QString &name)
{
    QUuid u(uuid);
    QSet<QString> codes;
    bool mustClose = false;
    bool already = k.st != Conn::None;
    if (u.isNull())
        codes << "TunnelProxyErrorInvalidUuid";
    if (already || (!u.isNull() && holder(u) >= 0)) {
        codes << "TunnelProxyErrorAlreadyRegistered";
        mustClose = !u.isNull();
    }
    bool ok = codes.isEmpty();
    if (ok)
        codes << "TunnelProxyErrorNoError";
    ExpReply e;
    e.id = id;
    e.cat = "regreply";
    e.what = "RegisterServer";
    e.codes = codes;
    e.check = [ok](const QJsonObject &p) -> QString {
        QString r = onlyKeys(p, {"tunnelProxyError", "slipEnabled"});
        if (!r.isEmpty())
            return r;
        if (!p["slipEnabled"].isBool() || p["slipEnabled"].toBool() != ok)
            return "slipEnabled is wrong";
        return QString();
    };
    k.replies.push_back(e);
    QJsonObject p;
    p["serverName"] = name;
    p["serverUuid"] = uuid;
    QByteArray req = render(id, "TunnelProxy.RegisterServer", p);
    QByteArray out = wrap(k, req, true); // before the state changes
    if (ok) {
        k.st = Conn::Server;
        k.uuid = u;
        k.name = name;
    } else if (mustClose) {
        expectClose(k, "register");
    } else {
        k.mayClose = true;
    }
    return out;
}

QByteArray World::regClient(Conn &k, int id, const QString &uuid, const QString &server, const QString &name)
{
    QUuid u(uuid), sv(server);
    QSet<QString> codes;
    bool mustClose = false;
    bool already = k.st != Conn::None;
    if (u.isNull() || sv.isNull()) {
        codes << "TunnelProxyErrorInvalidUuid";
        if (already || (!u.isNull() && holder(u) >= 0))
            codes << "TunnelProxyErrorAlreadyRegistered";
        if (!sv.isNull() && serverFor(sv) < 0)
            codes << "TunnelProxyErrorServerNotFound";
    } else {
        if (already || holder(u) >= 0)
            codes << "TunnelProxyErrorAlreadyRegistered";
        if (serverFor(sv) < 0)
            codes << "TunnelProxyErrorServerNotFound";
        mustClose = !codes.isEmpty();
    }
    bool ok = codes.isEmpty();
    if (ok)
        codes << "TunnelProxyErrorNoError";
    ExpReply e;
    e.id = id;
    e.cat = "regreply";
    e.what = "RegisterClient";
    e.codes = codes;
    e.check = [](const QJsonObject &p) -> QString { return onlyKeys(p, {"tunnelProxyError"}); };
    k.replies.push_back(e);
    QJsonObject p;
    p["clientName"] = name;
    p["clientUuid"] = uuid;
    p["serverUuid"] = server;
    QByteArray req = render(id, "TunnelProxy.RegisterClient", p);
    QByteArray out = wrap(k, req, true);
    if (ok) {
        k.st = Conn::Client;
        k.uuid = u;
        k.name = name;
        k.owner = serverFor(sv);
        ExpNotif n;
        n.connected = true;
        n.client = k.idx;
        at(k.owner).notifs.push_back(n);
    } else if (mustClose) {
        expectClose(k, "register");
    } else {
        k.mayClose = true;
    }
    return out;
}

QByteArray World::disconnectClient(Conn &k, int id, const QJsonValue &addr)
{
    double a = addr.toDouble();
    int target = -1;
    ExpReply e;
    e.id = id;
    e.cat = "discreply";
    e.what = "DisconnectClient";
    if (k.st == Conn::Server) {
        for (int i : clientsOf(k.idx)) {
            if (at(i).announced && double(at(i).addr) == a)
                target = i;
        }
        e.codes << (target >= 0 ? "TunnelProxyErrorNoError" : "TunnelProxyErrorUnknownSocketAddress");
    } else {
        e.codes << "TunnelProxyErrorInvalidUuid" << "TunnelProxyErrorInternalServerError" << "TunnelProxyErrorServerNotFound" << "TunnelProxyErrorAlreadyRegistered"
                << "TunnelProxyErrorUnknownSocketAddress";
        k.mayClose = true;
    }
    e.check = [](const QJsonObject &p) -> QString { return onlyKeys(p, {"tunnelProxyError"}); };
    k.replies.push_back(e);
    QJsonObject p;
    p["socketAddress"] = addr;
    QByteArray out = wrap(k, render(id, "TunnelProxy.DisconnectClient", p), true);
    if (target >= 0)
        expectClose(at(target), "disconnect");
    return out;
}

void World::expectError(Conn &k, int id, const std::string &why)
{
    ExpReply e;
    e.id = id;
    e.cat = "errreply";
    e.what = "error";
    e.error = true;
    k.replies.push_back(e);
    expectClose(k, why);
}

void World::clientSend(Conn &k, const QByteArray &payload)
{
    k.expOut += payload;
    throughput += quint64(payload.size());
    k.lastRxMs = vclock::nowMs();
}

QByteArray World::frameTo(Conn &server, quint16 addr, const QByteArray &payload)
{
    for (int i : clientsOf(server.idx)) {
        if (at(i).announced && at(i).addr == addr) {
            at(i).expIn += payload;
            throughput += quint64(payload.size());
        }
    }
    return slipFrame(addr, payload);
}

void World::closePeer(Conn &k, int mode)
{
    if (mode == 0)
        k.peer->close();
    else
        k.peer->reset();
    gone(k);
    k.expIn.clear();
    k.replies.clear();
}

// ---------------------------------------------------------------- what the peers see

void World::tunnelIn(Conn &k, const QByteArray &data)
{
    if (data.size() > k.expIn.size() || memcmp(data.constData(), k.expIn.constData(), size_t(data.size())) != 0) {
        QString m = describe(k) + " received tunnel data it must not see here: got " + hexs(data) + ", still expected " + hexs(k.expIn);
        if (k.expIn.isEmpty())
            fail("misroute", m);
        fail("data-wrong", m);
    }
    k.expIn.remove(0, data.size());
}

void World::onJson(Conn &k, const QByteArray &line)
{
    QJsonParseError err;
    QJsonDocument d = QJsonDocument::fromJson(line, &err);
    if (err.error != QJsonParseError::NoError || !d.isObject())
        fail(k.slip ? "frame-json" : "reply-garbage", describe(k) + " received something that is not a JSON object: " + hexs(line, 200) + " " + QString::fromUtf8(line.left(200)));
    QJsonObject o = d.object();
    if (uniform) {
        QJsonObject l = o;
        if (l.contains("notification"))
            l.remove("id");
        k.log << QString::fromUtf8(QJsonDocument(l).toJson(QJsonDocument::Compact));
    }
    if (o.contains("notification")) {
        QString n = o["notification"].toString();
        QString r = onlyKeys(o, {"id", "notification", "params"});
        if (!r.isEmpty())
            fail("notif-format", describe(k) + " notification " + QString::fromUtf8(line) + ": " + r);
        if (k.st != Conn::Server && !(k.st == Conn::Dead && k.slip))
            fail("notif-extra", describe(k) + " is no server but received " + QString::fromUtf8(line));
        QJsonObject p = o["params"].toObject();
        if (n == "TunnelProxy.ClientConnected") {
            r = onlyKeys(p, {"clientName", "clientUuid", "clientPeerAddress", "socketAddress"});
            if (!r.isEmpty())
                fail("notif-format", QString::fromUtf8(line) + ": " + r);
            QUuid u(p["clientUuid"].toString());
            for (auto it = k.notifs.begin(); it != k.notifs.end(); ++it) {
                Conn &cl = at(it->client);
                if (!it->connected || cl.uuid != u)
                    continue;
                if (p["clientUuid"].toString() != cl.uuid.toString() && QUuid(p["clientUuid"].toString()) != cl.uuid)
                    fail("notif-content", "wrong client UUID in " + QString::fromUtf8(line));
                if (p["clientName"].toString() != cl.name)
                    fail("notif-content", QString("client name is announced as '%1', registered as '%2'").arg(p["clientName"].toString(), cl.name));
                if (p["clientPeerAddress"].toString() != cl.address())
                    fail("notif-content", "wrong peer address in " + QString::fromUtf8(line));
                double a = p["socketAddress"].toDouble(-1);
                if (!p["socketAddress"].isDouble() || a != int(a) || a <= 0 || a >= 65535)
                    fail("addr", "reserved or invalid socket address in " + QString::fromUtf8(line));
                for (auto &other : conns) {
                    if (other->idx != cl.idx && other->announced && other->owner == k.idx && other->addr == quint16(a) && !other->goneNotified)
                        fail("addr", QString("socket address %1 is announced for %2 but %3 still has it").arg(a).arg(describe(cl), describe(*other)));
                }
                cl.addr = quint16(a);
                cl.announced = true;
                k.notifs.erase(it);
                return;
            }
            fail("notif-extra", describe(k) + " received an unexpected " + QString::fromUtf8(line));
        } else if (n == "TunnelProxy.ClientDisconnected") {
            r = onlyKeys(p, {"socketAddress"});
            if (!r.isEmpty())
                fail("notif-format", QString::fromUtf8(line) + ": " + r);
            double a = p["socketAddress"].toDouble(-1);
            for (auto it = k.notifs.begin(); it != k.notifs.end(); ++it) {
                Conn &cl = at(it->client);
                if (it->connected || double(cl.addr) != a)
                    continue;
                if (!cl.announced)
                    fail("notif-order", "ClientDisconnected before ClientConnected for " + describe(cl));
                if (!cl.expOut.isEmpty())
                    fail("notif-order", QString("ClientDisconnected for %1 while %2 bytes of its data have not arrived").arg(describe(cl)).arg(cl.expOut.size()));
                cl.goneNotified = true;
                k.notifs.erase(it);
                return;
            }
            fail("notif-extra", describe(k) + " received an unexpected " + QString::fromUtf8(line));
        }
        fail("notif-extra", describe(k) + " received an unknown notification " + QString::fromUtf8(line));
    }
    // a reply
    if (k.replies.empty())
        fail("reply-extra", describe(k) + " received a reply it has not asked for: " + QString::fromUtf8(line));
    ExpReply e = k.replies.front();
    k.replies.pop_front();
    QString txt = QString::fromUtf8(line);
    if (!o["id"].isDouble() || o["id"].toDouble() != e.id)
        fail(e.cat + "-id", describe(k) + QString(": reply to %1 (id %2) is ").arg(e.what).arg(e.id) + txt);
    if (e.error) {
        QString r = onlyKeys(o, {"id", "status", "error"});
        if (!r.isEmpty() || o["status"].toString() != "error" || o["error"].toString().isEmpty())
            fail(e.cat, describe(k) + ": expected an error reply, got " + txt);
    } else {
        QString r = onlyKeys(o, {"id", "status", "params"});
        if (!r.isEmpty() || o["status"].toString() != "success")
            fail(e.cat, describe(k) + ": expected a success reply to " + e.what + ", got " + txt);
        QJsonObject p = o["params"].toObject();
        if (!e.codes.isEmpty()) {
            QString code = p["tunnelProxyError"].toString();
            if (!e.codes.contains(code))
                fail(e.cat, describe(k) + ": " + e.what + " is answered with " + code + ", expected " + e.codes.values().join(" or ") + ": " + txt);
        }
        if (e.check) {
            r = e.check(p);
            if (!r.isEmpty())
                fail(e.cat, describe(k) + ": reply to " + e.what + ": " + r + ": " + txt);
        }
        if (e.what == "RegisterServer" && e.codes.contains("TunnelProxyErrorNoError"))
            k.slip = true;
        if (e.what == "RegisterClient" && e.codes.contains("TunnelProxyErrorNoError"))
            k.raw = true;
    }
    if (e.after)
        e.after(QString());
}

void World::parse(Conn &k)
{
    Peer &p = *k.peer;
    if (!p.wsError.isEmpty())
        fail("ws-protocol", describe(k) + ": " + p.wsError);
    while (!p.in.isEmpty()) {
        if (k.raw) {
            QByteArray d = p.in;
            p.in.clear();
            tunnelIn(k, d);
        } else if (k.slip) {
            int e = p.in.indexOf(char(0xC0));
            if (e < 0)
                break;
            QByteArray f = p.in.left(e), plain;
            p.in.remove(0, e + 1);
            plain.reserve(f.size());
            for (int i = 0; i < f.size(); i++) {
                uchar b = uchar(f[i]);
                if (b == 0xDB) {
                    uchar n = i + 1 < f.size() ? uchar(f[i + 1]) : 0;
                    if (n == 0xDC)
                        plain.append(char(0xC0));
                    else if (n == 0xDD)
                        plain.append(char(0xDB));
                    else
                        fail("frame-format", describe(k) + " received an invalid SLIP frame " + hexs(f));
                    i++;
                } else {
                    plain.append(char(b));
                }
            }
            if (plain.size() < 2)
                fail("frame-format", describe(k) + " received a frame without an address: " + hexs(f));
            quint16 a = quint16(uchar(plain[0]) << 8 | uchar(plain[1]));
            QByteArray data = plain.mid(2);
            if (a == 0) {
                if (!data.endsWith('\n'))
                    fail("reply-format", describe(k) + ": control message is not terminated by a newline: " + hexs(data));
                onJson(k, data.left(data.size() - 1));
                continue;
            }
            int cl = -1;
            for (auto &x : conns) {
                if (x->announced && !x->goneNotified && x->addr == a && (x->owner == k.idx))
                    cl = x->idx;
            }
            if (cl < 0) {
                for (auto &x : conns) {
                    if (x->st == Conn::Client && !x->announced && x->owner == k.idx && x->expOut.startsWith(data))
                        fail("notif-order", QString("data of %1 arrived before its ClientConnected").arg(describe(*x)));
                }
                fail("misroute", describe(k) + QString(" received %1 from address %2, which is none of its clients").arg(hexs(data)).arg(a));
            }
            Conn &x = at(cl);
            if (data.size() > x.expOut.size() || memcmp(data.constData(), x.expOut.constData(), size_t(data.size())) != 0)
                fail(x.expOut.isEmpty() ? "data-extra" : "data-wrong", describe(k) + " received from " + describe(x) + ": " + hexs(data) + ", still expected " + hexs(x.expOut));
            x.expOut.remove(0, data.size());
        } else {
            int e = p.in.indexOf('\n');
            if (e < 0)
                break;
            QByteArray line = p.in.left(e);
            p.in.remove(0, e + 1);
            onJson(k, line);
        }
    }
}

bool World::satisfied(QString *missing, std::string *cat) const
{
    for (auto &kp : conns) {
        const Conn &k = *kp;
        bool open = k.peer->opened();
        if (open && k.peer->outPending() && !k.peer->closed()) {
            *cat = "stall";
            *missing = describe(k) + " cannot send: the proxy does not read";
            return false;
        }
        if (open && !k.peer->paused) {
            if (!k.replies.empty() && !k.replies.front().optional) {
                *cat = k.replies.front().cat + "-missing";
                *missing = describe(k) + ": no reply to " + k.replies.front().what + QString(" (id %1)").arg(k.replies.front().id);
                return false;
            }
            if (!k.expIn.isEmpty() && !(k.expectClosed && k.why != "disconnect" && k.why != "cascade")) {
                *cat = "data-missing";
                *missing = describe(k) + " has not received " + hexs(k.expIn);
                return false;
            }
            if (!k.peer->in.isEmpty()) {
                *cat = k.slip ? "frame-format" : "reply-format";
                *missing = describe(k) + " received an unterminated message " + hexs(k.peer->in, 200);
                return false;
            }
            if (k.st == Conn::Server) {
                if (!k.notifs.empty()) {
                    const ExpNotif &n = k.notifs.front();
                    *cat = "notif-missing";
                    *missing = describe(k) + " has not received " + (n.connected ? "ClientConnected" : "ClientDisconnected") + " for " + describe(*conns[size_t(n.client)]);
                    return false;
                }
            }
            if (k.expectClosed && !k.peer->closed()) {
                *cat = "close-missing:" + k.why;
                *missing = describe(k) + " should have been closed (" + QString::fromStdString(k.why) + ")";
                return false;
            }
        }
        if (k.st == Conn::Client && k.owner >= 0 && !k.expOut.isEmpty() && !conns[size_t(k.owner)]->peer->paused) {
            *cat = "data-missing";
            *missing = describe(*conns[size_t(k.owner)]) + " has not received from " + describe(k) + ": " + hexs(k.expOut);
            return false;
        }
    }
    return true;
}

void World::settle(const std::string &what)
{
    step = what;
    double last = vclock::realSecs();
    int idle = 0;
    bool tcp = false;
    for (auto &k : conns)
        tcp |= k->tr != Tr::Unix && k->peer->opened();
    bool first = true; // what spin() has read before is not parsed yet
    for (;;) {
        Sut::spin();
        bool moved = first;
        for (auto &k : conns) {
            if (!k->peer->opened())
                continue;
            if (k->peer->io() || first) {
                moved = true;
                parse(*k);
            }
            if (k->peer->closed() && !k->expectClosed) {
                if (k->mayClose) {
                    k->expectClosed = true;
                    k->why = "optional";
                    gone(*k);
                } else {
                    fail("close-unexpected@" + what, describe(*k) + " was closed by the proxy");
                }
            }
        }
        first = false;
        if (moved) {
            idle = 0;
            last = vclock::realSecs();
            c.beat();
            continue;
        }
        idle++;
        if (idle < 4)
            continue;
        QString m;
        std::string cat;
        if (satisfied(&m, &cat))
            break;
        if (idle > 30)
            usleep(200);
        if (vclock::realSecs() - last > (tcp ? 2.5 : 1.0))
            fail(cat, m);
    }
    for (auto &k : conns)
        k->mayClose = false;
}

// ---------------------------------------------------------------- monitor

QJsonObject World::monitorRequest(const QByteArray &request, bool *closed)
{
    int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    struct sockaddr_un a;
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    strncpy(a.sun_path, sut.monitorPath.toLocal8Bit().constData(), sizeof a.sun_path - 1);
    if (::connect(fd, (struct sockaddr *) &a, sizeof a) != 0) {
        ::close(fd);
        fail("stats-connect", "cannot connect to the monitor socket");
    }
    spin(4);
    if (::send(fd, request.constData(), size_t(request.size()), MSG_NOSIGNAL) < 0) { }
    QByteArray in;
    bool eof = false;
    double t0 = vclock::realSecs();
    int n = 0;
    while (!in.contains('\n') && !eof) {
        spin(1);
        char buf[65536];
        ssize_t r = recv(fd, buf, sizeof buf, 0);
        if (r > 0)
            in.append(buf, int(r));
        else if (r == 0)
            eof = true;
        if (++n > 100)
            usleep(100);
        if (vclock::realSecs() - t0 > 1.5)
            break;
    }
    ::close(fd);
    spin(4);
    if (closed)
        *closed = eof;
    if (!in.contains('\n')) {
        if (closed)
            return QJsonObject();
        fail("stats-missing", "no answer to the monitor request " + QString::fromUtf8(request));
    }
    if (in.indexOf('\n') != in.size() - 1)
        fail("stats-format", "more than one line answers one monitor request");
    QJsonParseError err;
    QJsonDocument d = QJsonDocument::fromJson(in, &err);
    if (err.error != QJsonParseError::NoError)
        fail("stats-format", "monitor answer is no JSON: " + err.errorString());
    return d.object();
}

void World::checkMonitor(bool printAll, qint64 expectedThroughput)
{
    QByteArray req;
    if (printAll)
        req = "{\"method\":\"refresh\",\"params\":{\"printAll\":true}}";
    else
        req = s.chance(1, 2) ? "{\"method\":\"refresh\",\"params\":{\"printAll\":false}}" : "{\"method\":\"refresh\"}";
    if (s.chance(1, 2))
        req += "\n";
    checkMonitorDoc(monitorRequest(req), printAll, expectedThroughput);
}

void World::checkMonitorDoc(const QJsonObject &o, bool printAll, qint64 expectedThroughput)
{
    QJsonObject st = o["tunnelProxyStatistic"].toObject();
    auto num = [&](const QString &what, const QJsonValue &v, double want) {
        if (!v.isDouble() || v.toDouble() != want)
            fail("stats", QString("monitor: %1 is %2, expected %3\n").arg(what).arg(v.isDouble() ? QString::number(v.toDouble()) : "missing").arg(want) + QString::fromUtf8(QJsonDocument(o).toJson()));
    };
    auto str = [&](const QString &what, const QJsonValue &v, const QString &want) {
        if (!v.isString() || v.toString() != want)
            fail("stats", QString("monitor: %1 is '%2', expected '%3'\n").arg(what, v.toString(), want) + QString::fromUtf8(QJsonDocument(o).toJson()));
    };
    str("serverName", o["serverName"], sut.opt.name);
    str("serverVersion", o["serverVersion"], SERVER_VERSION_STRING);
    str("apiVersion", o["apiVersion"], API_VERSION_STRING);
    int total = 0, servers = 0, clients = 0;
    int per[3] = {0, 0, 0};
    for (auto &k : conns) {
        if (k->st == Conn::Dead)
            continue;
        total++;
        per[int(k->tr)]++;
        servers += k->st == Conn::Server;
        clients += k->st == Conn::Client;
    }
    auto notMore = [&](const QString &what, const QJsonValue &v, double most) {
        if (v.toDouble() > most)
            fail("stats-count", QString("monitor: %1 is %2, there are only %3\n").arg(what).arg(v.toDouble()).arg(most) + QString::fromUtf8(QJsonDocument(o).toJson()));
    };
    notMore("totalClientCount", st["totalClientCount"], total);
    notMore("serverConnectionsCount", st["serverConnectionsCount"], servers);
    notMore("clientConnectionsCount", st["clientConnectionsCount"], clients);
    notMore("transports/TCP", st["transports"].toObject()["TCP"], per[1]);
    notMore("transports/WebSocket", st["transports"].toObject()["WebSocket"], per[2]);
    num("totalClientCount", st["totalClientCount"], total);
    num("serverConnectionsCount", st["serverConnectionsCount"], servers);
    num("clientConnectionsCount", st["clientConnectionsCount"], clients);
    QJsonObject tr = st["transports"].toObject();
    num("transports/unix", tr["unix"], per[0]);
    num("transports/TCP", tr["TCP"], per[1]);
    num("transports/WebSocket", tr["WebSocket"], per[2]);
    if (expectedThroughput >= 0)
        num("troughput", st["troughput"], double(expectedThroughput));
    QSet<QString> seen, ids;
    auto identity = [&](const QString &what, Conn &k, const QJsonValue &id) {
        if (QUuid(id.toString()).isNull() || ids.contains(id.toString()))
            fail("stats", what + "has no id of its own: " + id.toString());
        ids << id.toString();
        if (!k.monitorId.isEmpty() && k.monitorId != id.toString())
            fail("stats", what + "has another id than before");
        k.monitorId = id.toString();
    };
    int want = 0;
    for (auto &k : conns) {
        if (k->st == Conn::Server && (printAll || !clientsOf(k->idx).empty()))
            want++;
    }
    QJsonArray tunnels = st["tunnelConnections"].toArray();
    num("number of listed servers", tunnels.size(), want);
    for (const QJsonValue &v : tunnels) {
        QJsonObject t = v.toObject();
        int h = holder(QUuid(t["serverUuid"].toString()));
        if (h < 0 || at(h).st != Conn::Server || seen.contains(at(h).uuid.toString()))
            fail("stats", "monitor lists a server that is not there (or twice): " + t["serverUuid"].toString());
        Conn &k = at(h);
        seen << k.uuid.toString();
        QString w = "server " + describe(k) + " ";
        identity(w, k, t["id"]);
        str(w + "name", t["name"], k.name);
        str(w + "address", t["address"], k.address());
        num(w + "timestamp", t["timestamp"], double(k.since));
        num(w + "rxDataCount", t["rxDataCount"], double(k.peer->txTotal));
        if (!k.peer->paused)
            num(w + "txDataCount", t["txDataCount"], double(k.peer->rxTotal));
        auto cl = clientsOf(h);
        QJsonArray rows = t["clientConnections"].toArray();
        num(w + "number of clients", rows.size(), double(cl.size()));
        for (const QJsonValue &rv : rows) {
            QJsonObject r = rv.toObject();
            int ch = holder(QUuid(r["clientUuid"].toString()));
            if (ch < 0 || at(ch).st != Conn::Client || at(ch).owner != h || seen.contains(at(ch).uuid.toString()))
                fail("stats", "monitor lists a client under the wrong server, twice, or one that is not there: " + r["clientUuid"].toString());
            Conn &x = at(ch);
            seen << x.uuid.toString();
            QString cw = "client " + describe(x) + " ";
            identity(cw, x, r["id"]);
            str(cw + "name", r["name"], x.name);
            str(cw + "address", r["address"], x.address());
            num(cw + "timestamp", r["timestamp"], double(x.since));
            num(cw + "rxDataCount", r["rxDataCount"], double(x.peer->txTotal));
            if (!x.peer->paused)
                num(cw + "txDataCount", r["txDataCount"], double(x.peer->rxTotal));
        }
    }
}
