#include "mix.h"
#include <QJsonArray>
#include <QJsonDocument>
#include <sys/socket.h>

int Mixer::pickConn(const std::vector<int> &v)
{
    return v.empty() ? -1 : v[w.s.draw(v.size())];
}

// connections end only when everybody reads: what a slow reader gets before its end is not modelled
void Mixer::readAll(const char *what)
{
    bool any = false;
    for (auto &k : w.conns) {
        if (k->peer->paused) {
            k->peer->paused = false;
            any = true;
            w.c.trace(w.describe(*k) + " reads again");
        }
    }
    if (any)
        w.settle(what);
}

void Mixer::opConnect()
{
    if (int(w.live().size()) >= m.maxConns)
        return;
    bool cap = true;
    if (w.uniform)
        cap = w.s.chance(1, 2);
    Tr t = w.uniform ? w.forced(cap) : w.anyTransport(m.unixW, m.tcpW, m.wsW);
    int k = w.connect(t);
    w.at(k).serverCapable = cap;
    w.c.trace(QString("connect #%1 %2").arg(k).arg(trName(t)));
    w.settle("connect");
}

void Mixer::opRequests(int conn)
{
    std::vector<int> v = w.byState(Conn::None), sv = w.byState(Conn::Server);
    v.insert(v.end(), sv.begin(), sv.end());
    if (conn < 0)
        conn = pickConn(v);
    if (conn < 0)
        return;
    Conn &k = w.at(conn);
    int n = w.s.weighted({5, 2, 1, 1}) + 1;
    if (m.batch && w.s.chance(m.batch, 100))
        n = w.s.range(5, 40);
    bool server = k.st == Conn::Server;
    QByteArray out;
    QString t;
    for (int i = 0; i < n; i++) {
        int id = w.freshId();
        QByteArray r;
        switch (w.s.weighted({4, 5, 1})) {
        case 0: r = w.hello(k, id); break;
        case 1: r = w.ping(k, id, double(w.s.weighted({3, 1}) == 0 ? w.s.draw(100000) : w.s.draw(4294967296ull))); break;
        default: r = w.introspect(k, id); break;
        }
        if (server) {
            out += World::slipFrame(0, r + (w.s.chance(1, 2) ? "\n" : ""));
        } else {
            out += (i ? "\n" : "") + r;
        }
    }
    if (!server && w.s.chance(2, 3))
        out += "\n";
    Chunks ch = server ? w.rawChunks(out) : w.jsonChunks(k, out);
    w.c.trace(QString("%1: %2 requests, %3 bytes, %4 cuts").arg(w.describe(k)).arg(n).arg(out.size()).arg(ch.cuts.size()) + (w.c.verbose ? " " + QString::fromUtf8(out) : QString()));
    st.requests += n;
    w.transmit(k, out, ch);
    w.settle("request");
}

// requests behind one which ends the connection
QByteArray Mixer::trailing(Conn &k, bool framed)
{
    if (!w.s.chance(m.trail, 100))
        return QByteArray();
    QByteArray out;
    QStringList t;
    for (int n = w.s.range(1, 3); n > 0; n--) {
        QJsonObject p;
        QByteArray r;
        std::vector<int> sv = w.byState(Conn::Server);
        switch (w.s.weighted({3, 2, sv.empty() ? 0 : 2, 1, 1, 1})) {
        case 0:
            p["serverName"] = "late";
            p["serverUuid"] = w.poolUuid().toString();
            r = w.render(w.freshId(), "TunnelProxy.RegisterServer", p);
            t << "RegisterServer";
            break;
        case 1:
            r = w.render(w.freshId(), "RemoteProxy.Hello", p);
            t << "Hello";
            break;
        case 2:
            p["clientName"] = "late";
            p["clientUuid"] = w.poolUuid().toString();
            p["serverUuid"] = w.at(pickConn(sv)).uuid.toString();
            r = w.render(w.freshId(), "TunnelProxy.RegisterClient", p);
            t << "RegisterClient";
            break;
        case 3:
            p["timestamp"] = 3;
            r = w.render(w.freshId(), "TunnelProxy.Ping", p);
            t << "Ping";
            break;
        case 4:
            r = "{\"id\":5,\"method\":\"RemoteProxy.Nothing\"}";
            t << "invalid";
            break;
        default:
            p["socketAddress"] = 1;
            r = w.render(w.freshId(), "TunnelProxy.DisconnectClient", p);
            t << "DisconnectClient";
            break;
        }
        out += framed ? World::slipFrame(0, r) : r + "\n";
    }
    w.c.trace(QString("  (with %1 right behind in #%2)").arg(t.join(", ")).arg(k.idx));
    st.trailed++;
    return out;
}

void Mixer::opRegServer(int conn)
{
    bool bad = w.s.chance(m.badReg, 100);
    std::vector<int> v = w.byState(Conn::None);
    if (bad && w.s.chance(1, 3)) {
        std::vector<int> sv = w.byState(Conn::Server);
        if (!sv.empty())
            v = sv;
    }
    if (conn < 0)
        conn = pickConn(v);
    if (conn < 0)
        return;
    Conn &k = w.at(conn);
    if (k.peer->paused)
        readAll("data");
    QString u;
    if (bad && w.s.chance(1, 3)) {
        u = w.badUuid();
    } else {
        QUuid q = w.poolUuid();
        for (int i = 0; i < 8 && !bad && w.holder(q) >= 0; i++)
            q = w.poolUuid();
        u = w.spell(q);
    }
    if ((w.uniform ? !k.serverCapable : k.tr == Tr::Ws) && k.st == Conn::None && !QUuid(u).isNull() && w.holder(QUuid(u)) < 0)
        return; // tunnel servers on WebSocket are outside the domain
    QString name = w.freshName();
    QByteArray out = w.regServer(k, w.freshId(), u, name);
    bool plain = !k.slip;
    Chunks ch = plain ? w.jsonChunks(k, out, true) : w.rawChunks(out);
    w.c.trace(QString("#%1 %2 RegisterServer %3 '%4' (expect %5), %6 cuts").arg(conn).arg(trName(k.tr)).arg(u, name, k.replies.back().codes.values().join("|")).arg(ch.cuts.size()));
    if (k.st == Conn::Server && plain)
        st.regOk++;
    else
        st.regRefused++;
    if (k.expectClosed)
        out += trailing(k, !plain);
    w.transmit(k, out, ch);
    w.settle("register");
    st.maxServers = std::max(st.maxServers, int(w.byState(Conn::Server).size()));
}

void Mixer::opRegClient(int conn)
{
    bool bad = w.s.chance(m.badReg, 100);
    std::vector<int> v = w.byState(Conn::None), sv = w.byState(Conn::Server);
    if (bad && !sv.empty() && w.s.chance(1, 4))
        v = sv;
    if (conn < 0)
        conn = pickConn(v);
    if (conn < 0 || (!bad && sv.empty()))
        return;
    Conn &k = w.at(conn);
    if (k.peer->paused)
        readAll("data");
    QString u, sr;
    if (bad && w.s.chance(1, 4)) {
        u = w.badUuid();
    } else {
        QUuid q = w.poolUuid();
        for (int i = 0; i < 8 && !bad && w.holder(q) >= 0; i++)
            q = w.poolUuid();
        u = w.spell(q);
    }
    if (bad && w.s.chance(1, 3)) {
        sr = w.badUuid();
    } else if (bad && w.s.chance(1, 2)) {
        sr = w.spell(w.poolUuid());
    } else if (!sv.empty()) {
        sr = w.spell(w.at(pickConn(sv)).uuid);
    } else {
        sr = w.spell(w.poolUuid());
    }
    QString name = w.freshName();
    bool plain = !k.slip;
    QByteArray out = w.regClient(k, w.freshId(), u, sr, name);
    Chunks ch = plain ? w.jsonChunks(k, out, true) : w.rawChunks(out);
    w.c.trace(QString("#%1 %2 RegisterClient %3 at %4 '%5' (expect %6), %7 cuts").arg(conn).arg(trName(k.tr)).arg(u, sr, name, k.replies.back().codes.values().join("|")).arg(ch.cuts.size()));
    if (k.st == Conn::Client)
        st.regOk++;
    else
        st.regRefused++;
    if (m.eager && plain && k.st == Conn::Client && k.tr == Tr::Ws && w.s.chance(1, 2)) {
        // tunnel data in the next message, without waiting for the reply
        QByteArray p = w.payloadFor(k, 100);
        if (p.isEmpty())
            p = "z";
        w.transmit(k, out, ch);
        w.c.trace("  and sends at once " + hexs(p, 24));
        w.clientSend(k, p);
        w.transmit(k, p, Chunks());
        st.eager++;
    } else {
        if (k.expectClosed)
            out += trailing(k, !plain);
        w.transmit(k, out, ch);
    }
    w.settle("register");
    st.maxClients = std::max(st.maxClients, int(w.byState(Conn::Client).size()));
}

bool Mixer::clientSend(int conn, bool settle)
{
    if (conn < 0)
        conn = pickConn(w.byState(Conn::Client));
    if (conn < 0)
        return false;
    Conn &k = w.at(conn);
    QByteArray p = w.payloadFor(k, m.hugePercent && w.s.chance(m.hugePercent, 100) ? m.hugeMax : m.maxPayload);
    if (p.isEmpty())
        p = "x";
    Chunks ch = w.dataChunks(k, p);
    if (!settle)
        ch.pumpBetween = false;
    w.c.trace(QString("%1 sends %2 in %3 chunks").arg(w.describe(k), hexs(p, 24)).arg(ch.cuts.size() + 1));
    w.clientSend(k, p);
    w.transmit(k, p, ch);
    st.delivered++;
    st.bytes += quint64(p.size());
    if (settle)
        w.settle("data");
    return true;
}

QByteArray Mixer::badPiece()
{
    QByteArray end(1, char(0xC0));
    switch (w.s.weighted({3, 2, 3, 2, 2})) {
    case 0: { // an invalid escape somewhere, in a frame to nobody or to somebody
        QByteArray f;
        f.append(char(0)).append(char(1 + w.s.draw(6)));
        f += w.s.bytes(w.s.range(0, 8)).replace(char(0xC0), "x").replace(char(0xDB), "y");
        f.append(char(0xDB)).append(char(w.s.pick<int>({0, 1, 0x41, 0xDB, 0xDE, 0xDA, 0xFF})));
        f += w.s.bytes(w.s.range(0, 8)).replace(char(0xC0), "x").replace(char(0xDB), "y");
        return f + end;
    }
    case 1: // empty frames
        return QByteArray(w.s.range(1, 4), char(0xC0));
    case 2: // shorter than an address
        return QByteArray(1, char(w.s.pick<int>({0, 1, 2, 0x7B, 0xFF}))) + end;
    case 3: { // escape as the very first or last byte
        QByteArray f;
        if (w.s.chance(1, 2))
            f.append(char(0xDB)).append(char(0x01)).append("zz");
        else
            f.append(char(0)).append(char(1)).append(char(0xDB)).append(char(0x30));
        return f + end;
    }
    default: { // a stranger's address
        quint16 a = quint16(w.s.chance(1, 2) ? 65535 - w.s.draw(3) : 40000 + w.s.draw(20000));
        return World::slipFrame(a, w.s.payload(60));
    }
    }
}

// One side stops reading while megabytes queue up for it.
void Mixer::opBacklog()
{
    std::vector<int> v;
    for (int i : w.byState(Conn::Client)) {
        Conn &k = w.at(i);
        if (k.announced && !k.peer->paused && k.owner >= 0 && !w.at(k.owner).peer->paused)
            v.push_back(i);
    }
    int conn = pickConn(v);
    if (conn < 0)
        return;
    Conn &k = w.at(conn), &o = w.at(k.owner);
    bool down = w.s.chance(2, 3);
    Conn &reader = down ? k : o;
    int small = 65536;
    setsockopt(reader.peer->fd(), SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
    reader.peer->paused = true;
    QByteArray unit = w.payloadFor(k, 3000);
    int n = w.s.range(2, 40), size = w.s.range(50000, 300000);
    w.c.trace(QString("%1 stops reading while %2 sends %3 times about %4 bytes").arg(w.describe(reader), w.describe(down ? o : k)).arg(n).arg(size));
    for (int i = 0; i < n; i++) {
        QByteArray p;
        for (int j = 0; p.size() < size; j++)
            p += unit + QByteArray::number(i) + ":" + QByteArray::number(j) + ";";
        Chunks ch;
        ch.pumpBetween = false;
        if (down) {
            w.transmit(o, w.frameTo(o, k.addr, p), ch);
        } else {
            w.clientSend(k, p);
            w.transmit(k, p, ch);
        }
        st.delivered++;
        st.bytes += quint64(p.size());
        w.settle("data");
    }
    st.backlogs++;
    st.paused++;
    reader.peer->paused = false;
    w.settle("data");
}

bool Mixer::serverSend(int conn, bool settle)
{
    if (conn < 0)
        conn = pickConn(w.byState(Conn::Server));
    if (conn < 0)
        return false;
    Conn &k = w.at(conn);
    std::vector<int> cl, all;
    bool unsure = k.peer->paused; // it may have clients whose address it has not read yet
    for (int i : w.clientsOf(conn)) {
        if (w.at(i).announced)
            cl.push_back(i);
        else
            unsure = true;
    }
    for (auto &x : w.conns)
        if (x->announced)
            all.push_back(x->idx);
    int n = w.s.range(1, 5);
    QByteArray out;
    QString t;
    for (int i = 0; i < n; i++) {
        Span sp(w.s);
        if (m.badFrame && w.s.chance(m.badFrame, 100)) {
            QByteArray b = badPiece();
            out += b;
            t += " bad:" + hexs(b, 12);
            st.badFrames++;
            continue;
        }
        if (m.control && w.s.chance(m.control, 100)) {
            out += World::slipFrame(0, w.s.chance(1, 2) ? w.ping(k, w.freshId(), double(w.s.draw(100000))) : w.hello(k, w.freshId()));
            t += " control";
            st.controls++;
            continue;
        }
        quint16 addr;
        QByteArray p;
        if (!cl.empty() && w.s.chance(8, 10)) {
            Conn &x = w.at(pickConn(cl));
            addr = x.addr;
            p = w.payloadFor(x, m.hugePercent && w.s.chance(m.hugePercent, 100) ? m.hugeMax : m.maxPayload);
            st.delivered++;
            st.bytes += quint64(p.size());
        } else {
            addr = unsure ? quint16(50000 + w.s.draw(10000)) : !all.empty() && w.s.chance(1, 2) ? w.at(pickConn(all)).addr : quint16(w.s.pick<int>({65535, 1, 2, 3, 4, 255, 256, 0xC0, 0xDB, 0x0100, 0x0200}));
            if (!unsure && !cl.empty() && w.s.chance(1, 2)) { // almost the address of one of its clients
                addr = w.at(pickConn(cl)).addr;
                switch (w.s.draw(4)) {
                case 0: addr = quint16(addr + 256 * (1 + w.s.draw(254))); break;
                case 1: addr = quint16(addr ^ (1 << w.s.draw(16))); break;
                case 2: addr = quint16(addr << 8 | addr >> 8); break;
                default: addr = quint16(-addr); break;
                }
            }
            bool mine = addr == 0;
            for (int j : cl)
                mine |= w.at(j).addr == addr;
            if (mine) {
                i--;
                if (w.s.chance(1, 2))
                    i++;
                continue;
            }
            p = w.s.payload(200);
        }
        out += w.frameTo(k, addr, p);
        t += QString(" @%1:%2").arg(addr).arg(hexs(p, 12));
    }
    if (out.isEmpty())
        return false;
    if (w.s.chance(1, 6))
        out.prepend(char(0xC0)); // a leading END is allowed
    Chunks ch = w.rawChunks(out);
    if (!settle)
        ch.pumpBetween = false;
    w.c.trace(QString("%1 sends frames%2 in %3 chunks").arg(w.describe(k), t).arg(ch.cuts.size() + 1));
    w.transmit(k, out, ch);
    if (settle)
        w.settle(m.badFrame ? "frames" : "data");
    return true;
}

void Mixer::opBurst()
{
    int n = w.s.range(2, 8), done = 0;
    for (int i = 0; i < n; i++) {
        Span sp(w.s);
        if (w.s.chance(1, 2))
            done += clientSend(-1, false);
        else
            done += serverSend(-1, false);
    }
    if (done) {
        w.c.trace("  (burst)");
        w.settle("data");
        st.bursts++;
    }
}

void Mixer::opDisconnect()
{
    readAll("data");
    std::vector<int> sv = w.byState(Conn::Server);
    bool stranger = w.s.chance(1, 12);
    int conn = stranger ? pickConn(w.byState(Conn::None)) : pickConn(sv);
    if (conn < 0)
        return;
    Conn &k = w.at(conn);
    std::vector<double> own, other;
    for (auto &x : w.conns) {
        if (!x->announced)
            continue;
        if (x->st == Conn::Client && x->owner == conn)
            own.push_back(x->addr);
        else
            other.push_back(x->addr);
    }
    bool unsure = k.peer->paused; // it may have clients whose address it has not read yet
    for (int i : w.clientsOf(conn))
        unsure |= !w.at(i).announced;
    if (unsure)
        other.clear();
    double a;
    int pick = w.s.weighted({6, 2, 1, 2});
    if (pick == 0 && !own.empty())
        a = w.s.pick(own);
    else if (pick == 1 && !other.empty())
        a = w.s.pick(other);
    else if (pick == 2)
        a = w.s.pick<double>({0, 65535, 65534, 47777});
    else
        a = 65536.0 * (1 + double(w.s.draw(3))) + (own.empty() ? 1 : w.s.pick(own));
    QByteArray pre;
    QString t;
    // tunnel data for the same client right before
    if (k.st == Conn::Server && !own.empty() && w.s.chance(1, 3)) {
        for (int i : w.clientsOf(conn)) {
            if (w.at(i).announced && double(w.at(i).addr) == a) {
                QByteArray p = w.payloadFor(w.at(i), 200);
                pre = w.frameTo(k, w.at(i).addr, p);
                t = " after data " + hexs(p, 12);
            }
        }
    }
    QByteArray out = pre + w.disconnectClient(k, w.freshId(), a);
    w.c.trace(QString("%1 DisconnectClient %2 (expect %3)%4").arg(w.describe(k)).arg(a, 0, 'f', 0).arg(k.replies.back().codes.values().join("|"), t));
    Chunks ch = k.slip ? w.rawChunks(out) : w.jsonChunks(k, out, true);
    st.disconnects++;
    w.transmit(k, out, ch);
    w.settle("disconnect");
}

void Mixer::opClose()
{
    readAll("data");
    int conn = pickConn(w.live());
    if (conn < 0)
        return;
    Conn &k = w.at(conn);
    if (k.peer->paused)
        return;
    int mode = int(w.s.draw(2));
    w.c.trace(QString("%1 %2").arg(w.describe(k), mode ? "resets" : "closes"));
    w.closePeer(k, mode);
    st.closes++;
    w.settle("close");
}

void Mixer::opSendClose()
{
    readAll("data");
    std::vector<int> none = w.byState(Conn::None), sv = w.byState(Conn::Server);
    if (!none.empty() && w.s.chance(1, 2)) {
        // requests, and the end right behind them
        Conn &k = w.at(pickConn(none));
        if (k.peer->paused)
            return;
        QUuid u = w.poolUuid();
        for (int i = 0; i < 8 && w.holder(u) >= 0; i++)
            u = w.poolUuid();
        bool cl = !sv.empty() && w.holder(u) < 0 && w.s.chance(1, 2);
        QByteArray out;
        QStringList l;
        if (!cl) {
            for (int n = w.s.range(1, 3); n > 0; n--)
                out += w.ping(k, w.freshId(), 1) + "\n";
            l << "requests";
        }
        if (cl) {
            out += w.regClient(k, w.freshId(), u.toString(), w.at(pickConn(sv)).uuid.toString(), w.freshName());
            l << "RegisterClient";
        } else if (w.s.chance(2, 3) && (w.uniform ? k.serverCapable : k.tr != Tr::Ws)) {
            QJsonObject p;
            p["serverName"] = "brief";
            p["serverUuid"] = u.toString();
            out += w.render(w.freshId(), "TunnelProxy.RegisterServer", p) + "\n";
            l << "RegisterServer";
        }
        w.c.trace(QString("%1 sends %2 and closes").arg(w.describe(k), l.join(" and ")));
        w.transmit(k, out, Chunks());
        w.closePeer(k, 0);
        st.closes++;
        w.settle("close");
        return;
    }
    int conn = pickConn(w.byState(Conn::Client));
    if (conn < 0 || w.at(conn).peer->paused)
        return;
    Conn &k = w.at(conn);
    QByteArray p = w.payloadFor(k, m.maxPayload);
    if (p.isEmpty())
        p = "y";
    w.c.trace(QString("%1 sends %2 and closes").arg(w.describe(k), hexs(p, 24)));
    w.clientSend(k, p);
    w.transmit(k, p, Chunks());
    if (!k.peer->outPending())
        w.closePeer(k, 0);
    st.closes++;
    st.delivered++;
    w.settle("close");
}

QByteArray Mixer::invalidRequest(int *id)
{
    Src &s = w.s;
    int good = s.range(0, 100000);
    *id = -1;
    auto obj = [&](const QString &method, const QJsonObject &p, bool wp = true) {
        *id = good;
        return w.render(good, method, p, wp);
    };
    QJsonObject reg;
    reg["serverName"] = "x";
    reg["serverUuid"] = w.poolUuid().toString();
    switch (s.weighted({3, 4, 4, 3, 4, 2})) {
    case 0: { // not JSON at all, balanced
        static const std::vector<QByteArray> bad = {"}", "garbage}", "{\"id\":1,}", "{id:1}", "{\"id\":1 \"method\":\"RemoteProxy.Hello\"}", "{]}", "{}{}", "{\"id\":4,\"method\":\"RemoteProxy.Hello\"}}",
            "{\"id\":42, \"method\":\"RemoteProx}\n", "{'id':1}", "{\"id\":01}", "\xff\xfe}", "{\"a\":tru}", "GET / HTTP/1.1\r\n{}\r\n}", "{\"id\":1,\"method\":\"RemoteProxy.Hello\",}", "{\"id\":1\"method\"}", "{,}", "{\"a\":\"\\x\"}", "[}", "{\"id\":1,\"params\":{]}}"};
        return s.pick(bad);
    }
    case 1: { // no integer id
        static const std::vector<QByteArray> bad = {"{}", "{\"method\":\"RemoteProxy.Hello\"}", "{\"id\":null,\"method\":\"RemoteProxy.Hello\"}", "{\"id\":\"abc\",\"method\":\"RemoteProxy.Hello\"}", "{\"id\":{},\"method\":\"RemoteProxy.Hello\"}",
            "{\"id\":[1],\"method\":\"RemoteProxy.Hello\"}", "{\"ID\":1,\"method\":\"RemoteProxy.Hello\"}", "{\"id\":\"\",\"method\":\"TunnelProxy.Ping\",\"params\":{\"timestamp\":1}}", "{\"params\":{}}"};
        return s.pick(bad);
    }
    case 2: { // unknown namespace or method
        static const std::vector<QString> bad = {"", "Hello", "RemoteProxy.", ".Hello", "RemoteProxy.Hello.x", "remoteproxy.Hello", "RemoteProxy.hello", "Foo.Hello", "TunnelProxy.Hello", "RemoteProxy.Ping", "RemoteProxy.TunnelEstablished",
            "TunnelProxy.ClientConnected", "TunnelProxy.ClientDisconnected", "RemoteProxy.deleteLater", "TunnelProxy.destroyed", "RemoteProxy.asyncReplyFinished", " RemoteProxy.Hello", "RemoteProxy. Hello", "TunnelProxy.RegisterServer ", ".", "..", "RemoteProxy.name"};
        if (s.chance(1, 4)) { // a notification with its parameters is no method either
            QString u = reg["serverUuid"].toString();
            switch (s.draw(3)) {
            case 0: return obj("RemoteProxy.TunnelEstablished", QJsonObject{{"uuid", u}, {"name", "x"}});
            case 1: return obj("TunnelProxy.ClientConnected", QJsonObject{{"clientName", "x"}, {"clientUuid", u}, {"clientPeerAddress", "127.0.0.1"}, {"socketAddress", 1}});
            default: return obj("TunnelProxy.ClientDisconnected", QJsonObject{{"socketAddress", 1}});
            }
        }
        if (s.chance(1, 3)) { // almost a method, with the parameters of that method
            struct Call { const char *space, *method; QJsonObject params; };
            const std::vector<Call> calls = {{"RemoteProxy", "Hello", {}}, {"RemoteProxy", "Introspect", {}}, {"TunnelProxy", "Ping", QJsonObject{{"timestamp", 1}}}, {"TunnelProxy", "RegisterServer", reg}, {"TunnelProxy", "DisconnectClient", QJsonObject{{"socketAddress", 1}}}};
            const Call &l = s.pick(calls);
            QString a = l.space, b = l.method, x = s.pick<QString>({"x", "", a, b, "RemoteProxy", "TunnelProxy", "Hello"});
            QString name;
            switch (s.draw(8)) {
            case 0: name = a + "." + x + "." + b; break;
            case 1: name = x + "." + a + "." + b; break;
            case 2: name = a + "." + b + "." + x; break;
            case 3: name = b + "." + a; break;
            case 4: name = a + s.pick<QString>({":", "/", " ", "", "::"}) + b; break;
            case 5: name = a + "." + b.left(b.size() - 1); break;
            case 6: name = a + "." + b + s.pick<QString>({"()", "s", "\n", "\t"}); break;
            default: name = s.chance(1, 2) ? a.toUpper() + "." + b : a + "." + b.toUpper(); break;
            }
            return obj(name, l.params);
        }
        return obj(s.chance(1, 6) ? s.unicode(30) : s.pick(bad), QJsonObject(), s.chance(1, 2));
    }
    case 3: { // missing parameter
        QJsonObject p = reg;
        switch (s.draw(5)) {
        case 0: p.remove("serverName"); return obj("TunnelProxy.RegisterServer", p);
        case 1: p.remove("serverUuid"); return obj("TunnelProxy.RegisterServer", p);
        case 2: return obj("TunnelProxy.Ping", QJsonObject(), s.chance(1, 2));
        case 3: {
            p["clientName"] = "c";
            return obj("TunnelProxy.RegisterClient", p); // serverName is unknown there, clientUuid is missing
        }
        default: return obj("TunnelProxy.DisconnectClient", QJsonObject());
        }
    }
    case 4: { // unknown or unusable parameter
        QJsonObject p = reg;
        switch (s.draw(6)) {
        case 0: p["extra"] = 1; return obj("TunnelProxy.RegisterServer", p);
        case 1: p["serverName"] = QJsonObject(); return obj("TunnelProxy.RegisterServer", p);
        case 2: p["serverUuid"] = QJsonArray(); return obj("TunnelProxy.RegisterServer", p);
        case 3: { QJsonObject q; q["timestamp"] = QJsonObject(); return obj("TunnelProxy.Ping", q); }
        case 4: { QJsonObject q; q["x"] = 1; return obj("RemoteProxy.Hello", q); }
        default: { QJsonObject q; q["timestamp"] = 1; q["o:timestamp"] = 2; return obj("TunnelProxy.Ping", q); }
        }
    }
    default: { // deep nesting
        int n = s.range(1, 4) * 700;
        QByteArray b = "{\"id\":7,\"a\":" + QByteArray(n, '[') + QByteArray(n, ']') + "}";
        if (n < 1024) { // within the parser's limit: no method
            *id = 7;
        }
        return b;
    }
    }
}

void Mixer::opInvalid()
{
    readAll("data");
    std::vector<int> v = w.byState(Conn::None), sv = w.byState(Conn::Server);
    if (w.s.chance(1, 3) || v.empty())
        v = sv;
    int conn = pickConn(v);
    if (conn < 0)
        return;
    Conn &k = w.at(conn);
    int id = -1;
    QByteArray r = invalidRequest(&id);
    if (w.asWs(k) && QString::fromUtf8(r).toUtf8() != r)
        r = "}";
    if (k.st == Conn::Server && w.s.chance(1, 10)) { // nothing in it at all
        r = w.s.pick<QByteArray>({"", "", " ", "\n"});
        id = -1;
    }
    w.c.trace(QString("%1 sends invalid %2").arg(w.describe(k), QString::fromUtf8(r.left(200))));
    QByteArray out;
    bool server = k.st == Conn::Server;
    // sometimes behind good requests
    if (w.s.chance(1, 3)) {
        int pid = w.freshId();
        QByteArray g = w.ping(k, pid, 5);
        out = server ? World::slipFrame(0, g) : g + "\n";
        if (!server && !r.startsWith('{'))
            r.prepend("{ ");
    }
    bool nl = w.s.chance(1, 2);
    QByteArray late = trailing(k, server);
    out += server ? World::slipFrame(0, r) : r + ((nl || !late.isEmpty()) && !r.endsWith("\n") ? "\n" : "");
    out += late;
    w.expectError(k, id, "invalid");
    st.invalid++;
    w.transmit(k, out, Chunks());
    w.settle("invalid");
}

void Mixer::opPartial()
{
    int conn = pickConn(w.byState(Conn::None));
    if (conn < 0)
        return;
    Conn &k = w.at(conn);
    static const std::vector<QByteArray> parts = {"{", "{\"id\":", "garbage", "{\"id\":1,\"method\":\"TunnelProxy.Ping\",\"params\":{\"timestamp\":1}", "\n\n", " ", "{\"method\":\"x", "POST / HTTP/1.1\r\n\r\n", "\x16\x03\x01"};
    QByteArray b = !w.asWs(k) && w.s.chance(1, 3) ? w.s.bytes(w.s.range(1, 300)).replace('}', "]") : w.s.pick(parts);
    if (w.asWs(k) && QString::fromUtf8(b).toUtf8() != b)
        b = "{";
    k.poisoned = true;
    w.c.trace(QString("%1 sends an unfinished %2").arg(w.describe(k), hexs(b, 32)));
    w.transmit(k, b, Chunks());
    w.settle("partial");
}

void Mixer::opMonitor()
{
    bool all = w.s.chance(1, 2);
    w.c.trace(QString("monitor printAll=%1").arg(all));
    w.step = "monitor";
    w.checkMonitor(all);
    st.monitors++;
    w.settle("monitor");
}

void Mixer::opPause()
{
    std::vector<int> p, v;
    for (int i : w.live()) {
        if (w.at(i).peer->paused)
            p.push_back(i);
        else if (w.at(i).st == Conn::Client || w.at(i).st == Conn::Server)
            v.push_back(i);
    }
    if (!p.empty() && w.s.chance(1, 2)) {
        Conn &k = w.at(pickConn(p));
        k.peer->paused = false;
        w.c.trace(w.describe(k) + " reads again");
        w.settle("data");
    } else if (!v.empty()) {
        Conn &k = w.at(pickConn(v));
        k.peer->paused = true;
        st.paused++;
        w.c.trace(w.describe(k) + " stops reading");
    }
}

void Mixer::opWsBinary()
{
    readAll("data");
    std::vector<int> v;
    for (int i : w.live()) {
        if (w.at(i).tr == Tr::Ws && !w.at(i).peer->paused)
            v.push_back(i);
    }
    int conn = pickConn(v);
    if (conn < 0)
        return;
    Conn &k = w.at(conn);
    QByteArray p = w.s.payload(200);
    w.c.trace(w.describe(k) + " sends a binary message " + hexs(p, 16));
    WsMode mode;
    mode.opcode = 2;
    if (p.size() > 2 && w.s.chance(1, 3))
        mode.cuts = {1};
    w.expectClose(k, "binary");
    k.peer->sendWs(p, mode);
    w.settle("binary");
}

int Mixer::newConn(Tr t)
{
    int k = w.connect(t);
    w.settle("connect");
    return k;
}

void Mixer::regServerNow(int conn, const QUuid &u, const QString &name)
{
    Conn &k = w.at(conn);
    QByteArray out = w.regServer(k, 1, u.toString(), name);
    w.transmit(k, out, Chunks());
    w.settle("register");
    st.regOk++;
}

void Mixer::regClientNow(int conn, const QUuid &u, int server, const QString &name)
{
    Conn &k = w.at(conn);
    QByteArray out = w.regClient(k, 2, u.toString(), w.at(server).uuid.toString(), name);
    w.transmit(k, out, Chunks());
    w.settle("register");
    st.regOk++;
}

void Mixer::warmup()
{
    Span sp(w.s);
    int u = 0;
    std::vector<int> servers;
    QString t;
    for (int i = 0; i < m.warmServers; i++) {
        Tr a = w.uniform ? w.forced(true) : w.anyTransport(m.unixW + 1, m.tcpW, 0);
        int sv = newConn(a);
        regServerNow(sv, w.uuidPool[u++ % w.uuidPool.size()], QString("server%1").arg(i));
        servers.push_back(sv);
        t += QString(" server #%1 (%2)").arg(sv).arg(trName(a));
    }
    for (int j = 0; j < m.warmClients; j++) {
        for (int sv : servers) {
            Tr b = w.uniform ? w.forced(false) : w.anyTransport(m.unixW, m.tcpW, m.wsW);
            int cl = newConn(b);
            w.at(cl).serverCapable = false;
            regClientNow(cl, w.uuidPool[u++ % w.uuidPool.size()], sv, QString("client%1").arg(cl));
            t += QString(" client #%1 (%2) of #%3").arg(cl).arg(trName(b)).arg(sv);
        }
    }
    st.maxServers = std::max(st.maxServers, m.warmServers);
    st.maxClients = std::max(st.maxClients, m.warmServers * m.warmClients);
    w.c.trace("start:" + t);
}

// A connection that talks something else and goes away. Only the others are judged.
void Mixer::opGarbage()
{
    Tr t = w.anyTransport(1, 1, 2);
    Peer p(t, false);
    p.rawMode = true;
    if (!p.open(w.sut.unixPath, t == Tr::Tcp ? w.sut.tcpPort : w.sut.wsPort))
        w.fail("connect", QString("connection refused on ") + trName(t));
    static const std::vector<QByteArray> parts = {"GET / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\n\r\n",
        "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "{\"id\":1,\"method\":\"RemoteProxy.Hello\"}", "\xc0\xc0\xdb\xdc", "POST /x HTTP/1.0\r\nContent-Length: 99999\r\n\r\n", "\x81\xfe\xff\xff", "}", "}\n{", "}\n{}\n{",
        "\x89\x05hello", "\x88\x80\x01\x02\x03\x04", "GET /%ff HTTP/1.1\r\nSec-WebSocket-Key: \r\nUpgrade: websocket\r\nSec-WebSocket-Version: 99\r\n\r\n"};
    int n = w.s.range(1, 4);
    QString tr;
    for (int i = 0; i < n; i++) {
        QByteArray b = w.s.chance(1, 2) ? w.s.bytes(w.s.range(1, 400)) : w.s.pick(parts);
        tr += " " + hexs(b, 24);
        p.sendPlain(b);
        for (int j = 0; j < 4; j++) {
            w.spin(1);
            p.io();
        }
        if (p.closed())
            break;
    }
    int end = w.s.draw(2);
    w.c.trace(QString("a stranger on %1 sends%2 and %3").arg(trName(t), tr, end ? "resets" : "closes"));
    if (end)
        p.reset();
    else
        p.close();
    st.garbage++;
    w.spin(4);
    w.settle("garbage");
}

void Mixer::op()
{
    Span sp(w.s);
    switch (w.s.weighted({m.connect, m.request, m.regServer, m.regClient, m.clientSend, m.serverSend, m.disconnect, m.close, m.burst, m.sendClose, m.invalid, m.partial, m.monitor, m.pause, m.wsBinary, m.garbage, m.backlog})) {
    case 0: opConnect(); break;
    case 1: opRequests(); break;
    case 2: opRegServer(); break;
    case 3: opRegClient(); break;
    case 4: clientSend(-1, true); break;
    case 5: serverSend(-1, true); break;
    case 6: opDisconnect(); break;
    case 7: opClose(); break;
    case 8: opBurst(); break;
    case 9: opSendClose(); break;
    case 10: opInvalid(); break;
    case 11: opPartial(); break;
    case 12: opMonitor(); break;
    case 13: opPause(); break;
    case 14: opWsBinary(); break;
    case 16: opBacklog(); break;
    default: opGarbage(); break;
    }
}

void Mixer::run()
{
    if (m.warmup)
        warmup();
    int n = w.s.range(m.minOps, m.maxOps);
    for (int i = 0; i < n; i++)
        op();
    readAll("data");
    w.settle("data");
}
