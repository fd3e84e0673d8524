// C21: with TLS nothing is served to a peer that has not encrypted.
#include "mix.h"
#include "vclock.h"
#include <QJsonDocument>
#include <openssl/err.h>
#include <openssl/ssl.h>

namespace {

// the client side of a handshake whose bytes are in our hands
struct Tls {
    SSL_CTX *ctx;
    SSL *ssl;
    BIO *rd, *wr;
    bool done = false, bad = false;
    explicit Tls(int maxVersion)
    {
        ctx = SSL_CTX_new(TLS_client_method());
        SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, nullptr);
        if (maxVersion)
            SSL_CTX_set_max_proto_version(ctx, maxVersion);
        ssl = SSL_new(ctx);
        rd = BIO_new(BIO_s_mem());
        wr = BIO_new(BIO_s_mem());
        SSL_set_bio(ssl, rd, wr);
        SSL_set_connect_state(ssl);
    }
    ~Tls()
    {
        SSL_free(ssl);
        SSL_CTX_free(ctx);
    }
    QByteArray produced()
    {
        char buf[65536];
        int n = BIO_read(wr, buf, sizeof buf);
        return n > 0 ? QByteArray(buf, n) : QByteArray();
    }
    // feeds what came, returns what is to be sent
    QByteArray step(const QByteArray &in)
    {
        if (!in.isEmpty())
            BIO_write(rd, in.constData(), in.size());
        if (!done && !bad) {
            ERR_clear_error();
            int r = SSL_do_handshake(ssl);
            if (r == 1)
                done = true;
            else if (SSL_get_error(ssl, r) != SSL_ERROR_WANT_READ)
                bad = true;
        }
        return produced();
    }
    QByteArray encrypt(const QByteArray &d)
    {
        ERR_clear_error();
        SSL_write(ssl, d.constData(), d.size());
        return produced();
    }
    QByteArray decrypt(const QByteArray &in)
    {
        if (!in.isEmpty())
            BIO_write(rd, in.constData(), in.size());
        char buf[65536];
        QByteArray r;
        int n;
        ERR_clear_error();
        while ((n = SSL_read(ssl, buf, sizeof buf)) > 0)
            r.append(buf, n);
        return r;
    }
};

enum Kind { Silent, Clear, Cut, Broken, Slow, Withheld };
const char *kindName[] = {"silent", "in clear", "half a handshake", "corrupted handshake", "slow handshake", "handshake without its end"};

struct Stranger {
    int idx;
    Kind kind;
    Tr tr;
    std::unique_ptr<Peer> peer;
    std::unique_ptr<Tls> tls;
    QByteArray toSend;       // handshake bytes not yet sent
    QByteArray seen;         // everything received
    int fed = 0;             // of it given to the TLS engine
    qint64 born = 0;
    bool valid = true;       // what it sent so far is a correct beginning
    bool encrypted = false;
    int holdFrom = -1;       // number of the flight that is withheld or corrupted
    int flight = 0;
    bool late = false;       // begins its handshake some time after it has connected
};

struct Gate {
    World &w;
    Mixer &x;
    Src &s;
    std::vector<std::unique_ptr<Stranger>> people;
    int count = 0, expired = 0, completed = 0, clear = 0, broken = 0, cut = 0, begun = 0;
    qint64 passed = 0;

    void io(Stranger &p)
    {
        p.peer->io();
        p.seen += p.peer->plainIn;
        p.peer->plainIn.clear();
    }
    // what a peer without encryption may see: TLS records, nothing else
    void judge(Stranger &p)
    {
        io(p);
        if (p.encrypted)
            return;
        QByteArray d = p.seen;
        if (d.contains("\"status\"") || d.contains("RemoteProxy") || d.contains("HTTP/1.1"))
            w.fail("tls-served", QString("the stranger %1 (%2, %3) receives ").arg(p.idx).arg(trName(p.tr), kindName[p.kind]) + hexs(d, 200));
        int pos = 0;
        while (pos + 3 <= d.size()) {
            int type = uchar(d[pos]);
            if (type < 20 || type > 24 || uchar(d[pos + 1]) != 3)
                w.fail("tls-served", QString("the stranger %1 (%2, %3) receives bytes that are no TLS record at %4: ").arg(p.idx).arg(trName(p.tr), kindName[p.kind]).arg(pos) + hexs(d, 200));
            if (pos + 5 > d.size())
                break;
            pos += 5 + (uchar(d[pos + 3]) << 8 | uchar(d[pos + 4]));
        }
        qint64 age = vclock::nowMs() - p.born;
        if (p.peer->closed() && p.valid && age < 4700)
            w.fail("tls-early", QString("the stranger %1 (%2, %3) is disconnected after %4 ms").arg(p.idx).arg(trName(p.tr), kindName[p.kind]).arg(age));
    }
    void judgeAll()
    {
        for (auto &p : people)
            judge(*p);
    }
    void drive(int n)
    {
        for (int i = 0; i < n; i++) {
            w.spin(1);
            judgeAll();
        }
    }

    QByteArray clearText()
    {
        QJsonObject o;
        switch (s.weighted({4, 2, 2, 2, 1, 1})) {
        case 0: {
            QJsonObject p;
            p["serverName"] = "intruder";
            p["serverUuid"] = w.poolUuid().toString();
            return w.render(1, "TunnelProxy.RegisterServer", p) + "\n";
        }
        case 1: return "{\"id\":1,\"method\":\"RemoteProxy.Hello\"}\n";
        case 2: return "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
        case 3: return s.bytes(s.range(1, 300));
        case 4: return QByteArray("\x15\x03\x01\x00\x02\x02\x28", 7);
        default: {
            std::vector<int> sv = w.byState(Conn::Server);
            QJsonObject p;
            p["clientName"] = "intruder";
            p["clientUuid"] = w.poolUuid().toString();
            p["serverUuid"] = sv.empty() ? w.poolUuid().toString() : w.at(s.pick(sv)).uuid.toString();
            return w.render(1, "TunnelProxy.RegisterClient", p) + "\n";
        }
        }
    }

    void arrive()
    {
        auto p = std::make_unique<Stranger>();
        p->idx = count++;
        p->tr = s.chance(1, 3) ? Tr::Ws : Tr::Tcp;
        p->kind = Kind(s.weighted({2, 4, 4, 3, 3, 3}));
        p->peer = std::make_unique<Peer>(p->tr, false);
        p->peer->rawMode = true;
        p->born = vclock::nowMs();
        if (!p->peer->open(w.sut.unixPath, p->tr == Tr::Tcp ? w.sut.tcpPort : w.sut.wsPort))
            w.fail("connect", "a connection is refused");
        QString t;
        drive(2); // accepted now
        int version = s.chance(1, 3) ? TLS1_2_VERSION : 0;
        switch (p->kind) {
        case Silent: break;
        case Clear: {
            clear++;
            p->valid = false;
            for (int n = s.range(1, 3); n > 0; n--) {
                QByteArray b = clearText();
                t += " " + hexs(b, 20);
                p->peer->sendPlain(b);
                if (s.chance(1, 2)) {
                    w.spin(2);
                    judge(*p);
                }
            }
            break;
        }
        default:
            p->tls = std::make_unique<Tls>(version);
            p->toSend = p->tls->step(QByteArray());
            if (p->kind == Cut) {
                cut++;
                int n = int(s.draw(quint64(p->toSend.size())));
                t = QString(" %1 of %2 bytes").arg(n).arg(p->toSend.size());
                p->peer->sendPlain(p->toSend.left(n));
                p->toSend.clear();
                if (s.chance(1, 3)) {
                    QByteArray b = clearText();
                    t += " and then " + hexs(b, 20);
                    p->peer->sendPlain(b);
                    p->valid = false;
                }
            } else if (p->kind == Broken) {
                broken++;
                p->valid = false;
                p->holdFrom = int(s.draw(2));
            } else if (p->kind == Withheld) {
                p->holdFrom = 1;
            }
        }
        w.c.trace(QString("stranger %1 on %2: %3%4").arg(p->idx).arg(trName(p->tr), kindName[p->kind], t));
        people.push_back(std::move(p));
        if (people.back()->kind == Broken || people.back()->kind == Withheld) {
            Stranger &q = *people.back();
            q.late = s.chance(1, 2);
            if (q.late)
                w.c.trace("  which begins later");
            for (int i = 0; i < 12 && !q.late; i++)
                handshake(q, 100000);
        }
        drive(3);
        harmless(people.back().get());
        w.settle("stranger");
    }

    // the flipped bit was one nobody looks at (a record version): an ordinary connection
    void harmless(Stranger *p)
    {
        if (p->kind == Broken && p->tls->done && !p->peer->closed())
            leave(p);
    }

    // moves the handshake on by at most 'bytes'
    void handshake(Stranger &p, int bytes)
    {
        if (!p.tls || p.encrypted || p.peer->closed())
            return;
        io(p);
        if (p.toSend.isEmpty()) {
            QByteArray in = p.seen.mid(p.fed);
            p.fed = p.seen.size();
            p.toSend = p.tls->step(in);
            if (!p.toSend.isEmpty())
                p.flight++;
        }
        if (!p.toSend.isEmpty() && p.holdFrom == p.flight) {
            if (p.kind == Withheld) {
                // all but the last byte
                p.peer->sendPlain(p.toSend.left(int(s.draw(quint64(p.toSend.size())))));
                p.toSend.clear();
                p.holdFrom = -2;
                p.flight = 100;
                return;
            }
            int at = int(s.draw(quint64(p.toSend.size())));
            p.toSend[at] = char(p.toSend[at] ^ (1 << s.draw(8)));
            p.holdFrom = -2;
        }
        if (p.flight >= 100)
            return;
        QByteArray out = p.toSend.left(bytes);
        p.toSend.remove(0, out.size());
        if (!out.isEmpty())
            p.peer->sendPlain(out);
        w.spin(3);
        io(p);
    }

    void leave(Stranger *p)
    {
        w.c.trace(QString("stranger %1 leaves").arg(p->idx));
        judge(*p);
        if (s.chance(1, 2))
            p->peer->reset();
        else
            p->peer->close();
        for (auto it = people.begin(); it != people.end(); ++it) {
            if (it->get() == p) {
                people.erase(it);
                break;
            }
        }
        drive(3);
        w.settle("stranger");
    }

    // a slow handshake comes to its end and is served
    void complete(Stranger *p)
    {
        for (int i = 0; i < 200 && !(p->tls->done && p->toSend.isEmpty()); i++)
            handshake(*p, 100000);
        w.spin(4);
        if (!p->tls->done) {
            qint64 age = vclock::nowMs() - p->born;
            if (age > 4700) {
                leave(p);
                return;
            }
            w.fail("tls-handshake", QString("the slow handshake of stranger %1 does not come to its end after %2 ms").arg(p->idx).arg(age));
        }
        p->encrypted = true;
        completed++;
        w.c.trace(QString("stranger %1 has encrypted after %2 ms").arg(p->idx).arg(vclock::nowMs() - p->born));
        if (p->tr == Tr::Tcp) {
            p->peer->sendPlain(p->tls->encrypt("{\"id\":9,\"method\":\"RemoteProxy.Hello\"}\n"));
            QByteArray got;
            for (int i = 0; i < 60 && !got.contains('\n'); i++) {
                w.spin(1);
                io(*p);
                QByteArray in = p->seen.mid(p->fed);
                p->fed = p->seen.size();
                got += p->tls->decrypt(in);
                if (i > 20)
                    w.settle("stranger");
            }
            QJsonObject o = QJsonDocument::fromJson(got).object();
            if (o["id"].toInt() != 9 || o["status"].toString() != "success")
                w.fail("tls-handshake", QString("stranger %1 has encrypted and asks Hello: ").arg(p->idx) + hexs(got, 200));
            // it stays: the five seconds do not count any more
            if (s.chance(1, 2) && passed < 40000) {
                pass(6000);
                io(*p);
                if (p->peer->closed())
                    w.fail("tls-handshake", QString("stranger %1 is disconnected although it has encrypted").arg(p->idx));
            }
        }
        p->valid = false;
        leave(p);
    }

    void pass(qint64 ms)
    {
        w.settle("before time");
        w.c.trace(QString("%1 ms pass").arg(ms));
        passed += ms;
        while (ms > 0) {
            qint64 n = std::min<qint64>(ms, 250);
            ms -= n;
            vclock::advanceMs(n);
            drive(2);
        }
        drive(3);
        w.settle("time");
        for (size_t i = 0; i < people.size(); i++) {
            Stranger &p = *people[i];
            judge(p);
            qint64 age = vclock::nowMs() - p.born;
            if (p.tr != Tr::Tcp || p.encrypted || age < 5300)
                continue;
            if (p.kind == Broken && p.tls->done) // the flipped bit was one nobody looks at (a record version)
                continue;
            double t0 = vclock::realSecs();
            while (!p.peer->closed() && vclock::realSecs() - t0 < 2)
                drive(1);
            if (!p.peer->closed())
                w.fail("tls-late", QString("the stranger %1 (%2) is still connected after %3 ms").arg(p.idx).arg(kindName[p.kind]).arg(age));
            expired++;
            people.erase(people.begin() + long(i));
            i--;
        }
    }

    void op()
    {
        std::vector<Stranger *> slow, all, late;
        for (auto &p : people) {
            all.push_back(p.get());
            if (p->kind == Slow && !p->peer->closed())
                slow.push_back(p.get());
            if (p->late && !p->peer->closed())
                late.push_back(p.get());
        }
        switch (s.weighted({12, people.size() < 8 ? 6 : 0, all.empty() ? 0 : 2, slow.empty() ? 0 : 4, slow.empty() ? 0 : 3, passed < 40000 ? 4 : 0, 3, late.empty() ? 0 : 5})) {
        case 0: x.op(); break;
        case 1: arrive(); break;
        case 2: leave(s.pick(all)); break;
        case 3: {
            Stranger *p = s.pick(slow);
            int n = s.range(1, 400);
            w.c.trace(QString("stranger %1 sends up to %2 bytes of its handshake").arg(p->idx).arg(n));
            // not to its end: that is for complete()
            if (p->flight == 0)
                handshake(*p, std::min(n, std::max(0, p->toSend.size() - 1)));
            drive(2);
            break;
        }
        case 4: complete(s.pick(slow)); break;
        case 5: pass(s.pick<qint64>({100, 700, 2000, 4000, 5400, 9000})); break;
        case 6: w.checkMonitor(true); break;
        default: {
            Stranger *p = s.pick(late);
            p->late = false;
            w.c.trace(QString("stranger %1 begins its handshake after %2 ms").arg(p->idx).arg(vclock::nowMs() - p->born));
            for (int i = 0; i < 12; i++)
                handshake(*p, 100000);
            drive(2);
            begun++;
            harmless(p);
        }
        }
        judgeAll();
    }
};

void run(Src &s, Ctx &c)
{
    World w(s, c, {"tls", "close-unexpected", "data", "misroute", "stall", "connect", "stats-count", "regreply", "notif", "reply"});
    SutOptions o;
    o.tls = true;
    o.inactiveTimeout = 10000000;
    w.start(o);
    Mix m;
    m.warmServers = s.range(1, 2);
    m.warmClients = s.range(1, 2);
    m.unixW = 1;
    m.tcpW = 3;
    m.wsW = 2;
    m.maxConns = 10;
    m.monitor = 0;
    m.hugePercent = 3;
    m.hugeMax = 70000;
    Mixer x(w, m);
    x.warmup();
    Gate g{w, x, s, {}};
    for (int i = s.range(6, 30); i > 0; i--) {
        Span sp(s);
        g.op();
    }
    w.checkMonitor(true);
    g.judgeAll();
    g.people.clear();
    w.finish();
    c.label("strangers", g.count);
    c.label("in clear", g.clear);
    c.label("cut handshakes", g.cut);
    c.label("corrupted handshakes", g.broken);
    c.label("expired", g.expired);
    c.label("begun late", g.begun);
    c.label("completed late", g.completed);
    c.label("payloads", x.st.delivered);
    if (g.count >= 1 && x.st.delivered >= 1)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C21";
    p.rule = "sessions of TLS peers with full traffic on a proxy with TLS, and strangers on the TCP and WebSocket ports who stay silent, send requests or bytes in clear, send a prefix of a handshake, a handshake with a flipped bit in any flight, a handshake without its end, or a slow one that comes to its end; a virtual clock passes around the five seconds. Strangers may see TLS records only, must not be counted, register or disturb anybody. Non-trivial: a stranger and tunnel data. Distinct by history.";
    p.assumptions = {"the 5 s limit is a coarse timer: 4.7 s to 5.3 s", "a WebSocket stranger's limit is Qt's and is not judged"};
    p.run = run;
    p.quickCases = 3000;
    p.thoroughCases = 20000;
    return p;
}
