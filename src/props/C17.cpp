// C17: the client library's remote connection against a scripted proxy.
#include "fakeproxy.h"
#include "sut.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"
#include "vclock.h"
#include <QJsonDocument>
#include <QJsonObject>

typedef remoteproxyclient::TunnelProxyRemoteConnection RC;

namespace {
int commonPrefix(const QByteArray &a, const QByteArray &b)
{
    int i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    return i;
}

struct Sess {
    Src &s;
    Ctx &c;
    Tr tr;
    bool tls;
    FakeProxy proxy;
    QUuid clientUuid, serverUuid;
    QString clientName;
    QUrl url;
    std::unique_ptr<RC> rc;

    // observed
    QByteArray got;
    int ups = 0, downs = 0;
    bool up = false;
    // done inside the handlers
    QByteArray greeting;       // sent when connected
    bool strict = false;        // the user does not ignore certificate errors
    int certErrors = 0, errors = 0;
    bool dropInHandler = false; // disconnectServer() in the next dataReady
    bool reconnectInHandler = false;
    // expected
    QByteArray mayGot;          // everything the proxy has sent into the tunnel
    int expectUps = 0;
    size_t linksBefore = 0;
    int cycles = 0, tunnels = 0, pieces = 0, refusals = 0, fused = 0, distrusts = 0;

    Sess(Src &src, Ctx &ctx, Tr t, bool e) : s(src), c(ctx), tr(t), tls(e), proxy(t, e) {}

    [[noreturn]] void fail(const std::string &cat, const QString &m) { c.fail(cat, m + "\nhistory:\n" + c.traceText.right(4000)); }

    void create()
    {
        rc = std::make_unique<RC>(clientUuid, clientName, tr == Tr::Ws ? RC::ConnectionTypeWebSocket : RC::ConnectionTypeTcpSocket);
        RC *r = rc.get();
        QObject::connect(r, &RC::sslErrors, r, [this, r](const QList<QSslError> &) {
            certErrors++;
            if (!strict)
                r->ignoreSslErrors();
        });
        QObject::connect(r, &RC::errorOccurred, r, [this, r](QAbstractSocket::SocketError e) {
            errors++;
            if (r->error() != e)
                fail("lib-error", QString("errorOccurred(%1) while error() is %2").arg(e).arg(r->error()));
        });
        QObject::connect(r, &RC::remoteConnectedChanged, r, [this, r](bool v) {
            if (v == up)
                fail("lib-signal", QString("remoteConnectedChanged(%1) twice").arg(v));
            up = v;
            (v ? ups : downs)++;
            if (v != r->remoteConnected())
                fail("lib-signal", QString("remoteConnectedChanged(%1) while remoteConnected() is %2").arg(v).arg(r->remoteConnected()));
            if (v && !greeting.isEmpty() && !r->sendData(greeting))
                fail("lib-send", "sendData fails inside remoteConnectedChanged(true)");
            if (!v && reconnectInHandler) {
                reconnectInHandler = false;
                chooseServer();
                r->connectServer(url, serverUuid);
            }
        });
        QObject::connect(r, &RC::dataReady, r, [this, r](const QByteArray &d) {
            if (!up)
                fail("lib-data", "dataReady while not connected: " + hexs(d));
            got += d;
            if (dropInHandler) {
                dropInHandler = false;
                r->disconnectServer();
            }
        });
    }

    bool round()
    {
        Sut::spin();
        return proxy.io();
    }
    void idle()
    {
        double t0 = vclock::realSecs();
        int n = 0;
        while (n < 6 && vclock::realSecs() - t0 < 10) {
            bool moved = round();
            for (auto &l : proxy.links)
                moved |= !l->idle() && !l->paused;
            n = moved ? 0 : n + 1;
        }
        c.beat();
        check();
    }
    template<class F> void wait(F cond, const QString &what)
    {
        double t0 = vclock::realSecs();
        while (!cond()) {
            round();
            c.beat();
            if (vclock::realSecs() - t0 > 8)
                fail("lib-stall", what);
        }
        check();
    }
    void check()
    {
        if (rc && up != rc->remoteConnected())
            fail("lib-signal", QString("remoteConnected() is %1, the last remoteConnectedChanged said %2").arg(rc->remoteConnected()).arg(up));
        if (ups > expectUps)
            fail("lib-signal", "connected without a successful registration");
        if (!mayGot.startsWith(got)) {
            int k = commonPrefix(got, mayGot);
            fail("lib-data", QString("after %1 right bytes dataReady delivered %2, the proxy sent %3").arg(k).arg(hexs(got.mid(k), 40), hexs(mayGot.mid(k), 40)));
        }
        for (auto &l : proxy.links) {
            if (!l->error.isEmpty())
                fail("lib-ws", l->error);
        }
    }
    Link *link() { return proxy.links.back().get(); }

    QByteArray tunnelData(int max) { return tr == Tr::Ws ? s.utf8Text(max) : s.payload(max); }

    // the bytes of a TCP proxy in pieces the library reads one by one
    void deliver(const QByteArray &all, const std::vector<int> &hot)
    {
        std::vector<int> cuts;
        int n = s.weighted({4, 4, 2, 1});
        for (int i = 0; i < n && all.size() > 1; i++)
            cuts.push_back(!hot.empty() && s.chance(1, 2) ? s.pick(hot) : s.range(1, all.size() - 1));
        std::sort(cuts.begin(), cuts.end());
        int pos = 0;
        for (int k : cuts) {
            if (k <= pos || k >= all.size() || link()->gone())
                continue;
            link()->send(all.mid(pos, k - pos));
            idle();
            pos = k;
            pieces++;
        }
        if (!link()->gone())
            link()->send(all.mid(pos));
    }

    QJsonObject request(const QString &method)
    {
        wait([&]() { return link()->in.contains('\n') || link()->closed(); }, "no " + method + " request arrives");
        int p = link()->in.indexOf('\n');
        if (p < 0)
            fail("lib-request", "the library closes instead of sending " + method);
        QByteArray line = link()->in.left(p);
        QJsonDocument d = QJsonDocument::fromJson(line);
        if (!d.isObject() || d.object()["method"].toString() != method || !d.object()["id"].isDouble())
            fail("lib-request", "instead of " + method + " the library sends " + QString::fromUtf8(line));
        if (link()->in.size() != p + 1)
            fail("lib-request", "more than the " + method + " request: " + hexs(link()->in));
        if (tr == Tr::Ws && link()->messages.size() != 1)
            fail("lib-request", QString("%1 in %2 messages").arg(method).arg(link()->messages.size()));
        link()->in.clear();
        link()->messages.clear();
        return d.object();
    }

    static QByteArray render(const QJsonObject &o) { return QJsonDocument(o).toJson(QJsonDocument::Compact) + "\n"; }
    std::vector<int> hotCuts(const QByteArray &d)
    {
        std::vector<int> h;
        for (int i = 0; i < d.size() - 1; i++) {
            if (d[i] == '}' || d[i] == '{' || d[i] == '\n')
                h.push_back(i + 1);
        }
        return h;
    }
    QString text()
    {
        QString t = s.chance(1, 2) ? QString("nymea-remoteproxy") : s.unicode(30);
        if (s.chance(1, 5))
            t += s.pick<QString>({"}", "}\n{", "\"}", "\\", "{"});
        return t;
    }

    // after the connection is lost or refused
    void expectDown(bool linkByUs)
    {
        if (!linkByUs)
            wait([&]() { return link()->closed(); }, "the library does not close the connection");
        wait([&]() { return rc->state() == RC::StateDisconnected; }, "the state does not become disconnected");
        idle();
        if (rc->state() != RC::StateDisconnected || rc->remoteConnected())
            fail("lib-state", "not disconnected any more");
        if (ups != downs)
            fail("lib-signal", QString("%1 times connected, %2 times disconnected").arg(ups).arg(downs));
        if (!rc->remoteProxyServerName().isEmpty() || !rc->remoteProxyServer().isEmpty() || !rc->remoteProxyServerVersion().isEmpty() || !rc->remoteProxyApiVersion().isEmpty())
            fail("lib-state", "still reports a proxy while disconnected");
        if (rc->sendData("x"))
            fail("lib-send", "sendData succeeds while disconnected");
        idle();
        if (proxy.links.size() > linksBefore + 1)
            fail("lib-state", "connects again by itself");
    }

    void start(bool again)
    {
        linksBefore = proxy.links.size();
        got.clear();
        mayGot.clear();
        if (!again) {
            chooseServer();
            rc->connectServer(url, serverUuid);
        }
    }
    // a connection can be to another server than the one before
    void chooseServer()
    {
        if (!serverUuid.isNull() && s.chance(1, 2))
            return;
        serverUuid = QUuid(uint(s.draw(0x7fffffff)), 0x4321, 0x4abc, 0x80, 1, 2, 3, 4, 5, 6, 7);
        c.trace("the server is " + serverUuid.toString());
    }

    bool localDrop()
    {
        // the user gives up during the handshake
        c.trace("user disconnects");
        rc->disconnectServer();
        return false;
    }

    // returns true when the tunnel is up
    bool handshake()
    {
        if (s.chance(1, 20)) {
            for (int i = s.range(0, 3); i > 0; i--)
                round();
            c.trace("user disconnects at once");
            rc->disconnectServer();
            wait([&]() { return rc->state() == RC::StateDisconnected; }, "the state does not become disconnected");
            idle();
            if (proxy.links.size() > linksBefore)
                expectDown(false);
            else if (ups != downs)
                fail("lib-signal", "connected");
            return false;
        }
        wait([&]() { return proxy.links.size() > linksBefore && (link()->ready() || link()->closed()); }, "the library does not connect");
        if (proxy.links.size() != linksBefore + 1)
            fail("lib-state", "connects twice");
        for (int phase = 0; phase < 2; phase++) {
            QJsonObject q = request(phase ? "TunnelProxy.RegisterClient" : "RemoteProxy.Hello");
            if (phase) {
                QJsonObject p = q["params"].toObject();
                if (QUuid(p["clientUuid"].toString()) != clientUuid || p["clientName"].toString() != clientName || QUuid(p["serverUuid"].toString()) != serverUuid || p.size() != 3)
                    fail("lib-request", "registers with " + QString::fromUtf8(render(q)));
            } else if (q.contains("params") && !q["params"].toObject().isEmpty()) {
                fail("lib-request", "Hello with " + QString::fromUtf8(render(q)));
            }
            if (rc->remoteConnected())
                fail("lib-state", "connected before the registration is answered");
            if (rc->sendData("too early"))
                fail("lib-send", "sendData succeeds before the registration");
            if (s.chance(1, 12)) {
                idle();
                vclock::advanceMs(s.range(1, 60000)); // a slow proxy
            }
            int how = s.weighted({16, 1, 1, 1, 1, 1});
            QJsonObject o;
            o["id"] = q["id"];
            o["status"] = "success";
            QJsonObject par;
            QString f[4];
            if (phase == 0) {
                const char *k[4] = {"server", "name", "version", "apiVersion"};
                for (int i = 0; i < 4; i++) {
                    f[i] = text();
                    par[k[i]] = f[i];
                }
            } else {
                par["tunnelProxyError"] = "TunnelProxyErrorNoError";
            }
            bool ok = true;
            if (how == 1) {
                ok = false;
                o["status"] = "error";
                o["error"] = text();
                c.trace(QString("phase %1: answer with an error").arg(phase));
            } else if (how == 2 && phase) {
                ok = false;
                par["tunnelProxyError"] = s.pick<QString>({"TunnelProxyErrorServerNotFound", "TunnelProxyErrorAlreadyRegistered", "TunnelProxyErrorInvalidUuid", "TunnelProxyErrorInternalServerError", "TunnelProxyErrorUnknownSocketAddress"});
                c.trace("refuse the registration");
            }
            if (how != 1)
                o["params"] = par;
            QByteArray reply = render(o);
            if (how >= 3) {
                int n = s.range(0, reply.size() - 2);
                if (tr == Tr::Ws) {
                    n = 0;
                } else if (n) {
                    link()->send(reply.left(n));
                    idle();
                }
                c.trace(QString("phase %1: %2 after %3 of %4 bytes").arg(phase).arg(how == 3 ? "proxy closes" : how == 4 ? "proxy resets" : "user disconnects").arg(n).arg(reply.size()));
                if (how == 3)
                    link()->close();
                else if (how == 4)
                    link()->reset();
                else
                    rc->disconnectServer();
                refusals++;
                expectDown(how != 5);
                return false;
            }
            QByteArray data;
            std::vector<QByteArray> msgs{reply};
            if (ok && phase && s.chance(1, 2)) {
                // the tunnel's first data is right behind
                for (int n = s.range(1, 3); n > 0; n--) {
                    QByteArray d = tunnelData(400);
                    if (d.isEmpty())
                        continue;
                    msgs.push_back(d);
                    data += d;
                }
                fused++;
            }
            if (ok && phase) {
                expectUps++;
                mayGot += data;
                greeting = s.chance(1, 3) ? tunnelData(100) : QByteArray();
            }
            c.trace(QString("phase %1: reply %2 bytes, tunnel data %3 bytes behind it, greeting %4").arg(phase).arg(reply.size()).arg(data.size()).arg(greeting.size()));
            bool closeBehind = !ok && s.chance(1, 2);
            if (tr == Tr::Ws) {
                link()->sendMessages(msgs, &s);
            } else {
                QByteArray all = reply + data;
                std::vector<int> hot = hotCuts(reply);
                hot.push_back(reply.size());
                hot.push_back(reply.size() - 1);
                deliver(all, hot);
            }
            if (!ok) {
                if (closeBehind)
                    link()->close();
                refusals++;
                expectDown(closeBehind);
                return false;
            }
            if (phase) {
                wait([&]() { return rc->remoteConnected(); }, "not connected after the successful registration");
                if (rc->state() != RC::StateRemoteConnected)
                    fail("lib-state", "connected but in another state");
                wait([&]() { return got.size() >= mayGot.size(); }, QString("only %1 of %2 bytes behind the registration reply were delivered").arg(got.size()).arg(mayGot.size()));
                QByteArray want = greeting;
                wait([&]() { return link()->in.size() >= want.size(); }, "the data sent inside remoteConnectedChanged(true) is missing");
                if (link()->in != want)
                    fail("lib-write", QString("the proxy received %1, the user sent %2").arg(hexs(link()->in), hexs(want)));
                link()->in.clear();
                link()->messages.clear();
                tunnels++;
                if (ups != expectUps)
                    fail("lib-signal", QString("remoteConnectedChanged(true) %1 times for %2 registrations").arg(ups).arg(expectUps));
            } else {
                wait([&]() { return link()->in.contains('\n') || link()->closed(); }, "no registration after the Hello reply");
                if (rc->remoteProxyServer() != f[0] || rc->remoteProxyServerName() != f[1] || rc->remoteProxyServerVersion() != f[2] || rc->remoteProxyApiVersion() != f[3])
                    fail("lib-state", "the proxy's server, name or versions are not the ones in its Hello reply");
            }
        }
        return true;
    }

    // one cycle; returns true when a new connection is already under way
    bool tunnel()
    {
        int ops = s.range(0, 8);
        for (int i = 0; i < ops; i++) {
            Span sp(s);
            int kind = s.weighted({4, 4, 3, 1, 1});
            int max = s.chance(1, 15) ? 200000 : 1500;
            if (kind == 0 || kind == 2) {
                QByteArray d = tunnelData(max);
                if (!d.isEmpty()) {
                    mayGot += d;
                    c.trace(QString("proxy sends %1").arg(hexs(d, 24)));
                    if (tr == Tr::Ws) {
                        link()->sendMessages({d}, &s);
                    } else if (kind == 2) {
                        link()->send(d);
                    } else {
                        deliver(d, {});
                    }
                }
            }
            if (kind == 1 || kind == 2) {
                QByteArray all;
                std::vector<QByteArray> each;
                bool pause = s.chance(1, 6);
                link()->paused = pause;
                for (int n = s.range(1, 4); n > 0; n--) {
                    QByteArray d = tunnelData(max);
                    if (d.isEmpty())
                        continue;
                    c.trace(QString("user sends %1%2").arg(hexs(d, 24)).arg(pause ? " (proxy does not read)" : ""));
                    if (!rc->sendData(d))
                        fail("lib-send", "sendData fails while connected");
                    all += d;
                    each.push_back(d);
                    if (s.chance(1, 2))
                        round();
                }
                if (pause)
                    idle();
                link()->paused = false;
                wait([&]() { return link()->in.size() >= all.size() || link()->closed(); }, QString("only %1 of %2 bytes of the user arrive").arg(link()->in.size()).arg(all.size()));
                idle();
                if (link()->in != all) {
                    int k = commonPrefix(link()->in, all);
                    fail("lib-write", QString("after %1 right bytes the proxy received %2, the user sent %3").arg(k).arg(hexs(link()->in.mid(k)), hexs(all.mid(k))));
                }
                if (tr == Tr::Ws && link()->messages != each)
                    fail("lib-write", "the messages are not the ones the user sent");
                link()->in.clear();
                link()->messages.clear();
            }
            if (kind == 3) {
                c.trace("time passes");
                vclock::advanceMs(s.range(1, 200000));
                idle();
            }
            if (kind == 4)
                round();
            else
                wait([&]() { return got.size() >= mayGot.size(); }, QString("only %1 of %2 bytes were delivered").arg(got.size()).arg(mayGot.size()));
            if (!rc->remoteConnected())
                fail("lib-state", "disconnected without a reason");
        }
        idle();
        int end = s.weighted({4, 2, 4, 2, 2, 2});
        QByteArray last = s.chance(1, 2) ? tunnelData(3000) : QByteArray();
        if (end == 0 || end == 1) {
            if (!last.isEmpty()) {
                mayGot += last;
                link()->send(last);
            }
            reconnectInHandler = s.chance(1, 3);
            bool again = reconnectInHandler;
            c.trace(QString("proxy %1 behind %2 bytes%3").arg(end ? "resets" : "closes").arg(last.size()).arg(again ? ", the user reconnects in the handler" : ""));
            // TLS and WebSocket need a turn of the library to flush, so a large message is not cut by our close
            if (end == 0)
                wait([&]() { return !link()->outPending(); }, "the library does not read");
            if (end)
                link()->reset();
            else
                link()->close();
            size_t before = proxy.links.size();
            if (again) {
                wait([&]() { return downs == ups; }, "no disconnect is reported");
                if (end == 0 && got != mayGot)
                    fail("lib-data", QString("%1 of %2 bytes before the proxy's close were delivered").arg(got.size()).arg(mayGot.size()));
                linksBefore = before;
                got.clear();
                mayGot.clear();
                return true;
            }
            expectDown(true);
            if (end == 0 && got != mayGot)
                fail("lib-data", QString("%1 of %2 bytes before the proxy's close were delivered").arg(got.size()).arg(mayGot.size()));
        } else if (end == 2) {
            c.trace("user disconnects");
            rc->disconnectServer();
            expectDown(false);
        } else if (end == 3) {
            c.trace("user disconnects inside dataReady");
            last = last.isEmpty() ? QByteArray("bye") : last;
            mayGot += last;
            dropInHandler = true;
            link()->send(last);
            expectDown(false);
            dropInHandler = false;
        } else if (end == 4) {
            c.trace("user connects again while connected");
            Link *old = link();
            size_t before = proxy.links.size();
            start(false);
            linksBefore = before;
            wait([&]() { return old->closed(); }, "the old connection stays open");
            wait([&]() { return downs == ups; }, "no disconnect is reported");
            return true;
        } else {
            c.trace("the object is deleted");
            rc.reset();
            up = false;
            downs = ups;
            wait([&]() { return link()->closed(); }, "the deleted object's connection stays open");
            idle();
            create();
        }
        return false;
    }

    void run()
    {
        clientUuid = QUuid(uint(s.draw(0x7fffffff)), 0x1234, 0x4abc, 0x80, 1, 2, 3, 4, 5, 6, 7);
        clientName = s.chance(1, 2) ? "client" : s.unicode(40);
        Sut ports(c);
        for (int i = 0;; i++) {
            if (i > 30)
                c.abandon("no-free-port");
            if (proxy.listen(ports.nextPort()))
                break;
        }
        url = QUrl(QString(tr == Tr::Ws ? (tls ? "wss" : "ws") : (tls ? "ssl" : "tcp")) + "://" + (s.chance(1, 10) ? "localhost:" : "127.0.0.1:") + QString::number(proxy.port()));
        if (tr == Tr::Ws && s.chance(1, 8))
            url.setPath("/tunnel/");
        c.trace(QString("%1 TLS %2 %3").arg(trName(tr)).arg(tls).arg(url.host()));
        create();
        bool again = false;
        int n = s.range(1, 4);
        for (int i = 0; i < n || again; i++) {
            Span sp(s);
            cycles++;
            if (!again && s.chance(1, 12)) {
                int port = proxy.port();
                proxy.stop();
                c.trace("nobody listens");
                int e0 = errors;
                start(false);
                wait([&]() { return rc->state() == RC::StateDisconnected; }, "the state does not become disconnected");
                idle();
                if (errors == e0 || rc->error() != QAbstractSocket::ConnectionRefusedError)
                    fail("lib-error", QString("nobody listens: %1 errors are reported, error() is %2").arg(errors - e0).arg(rc->error()));
                if (ups != downs || proxy.links.size() != linksBefore)
                    fail("lib-signal", "connected to nothing");
                if (!proxy.listen(port))
                    c.abandon("port-lost");
                continue;
            }
            if (!again && tls && s.chance(1, 4)) {
                // nobody vouches for the proxy's certificate
                c.trace("the user does not accept the certificate");
                strict = true;
                int e0 = certErrors;
                start(false);
                wait([&]() { return rc->state() == RC::StateDisconnected; }, "the state does not become disconnected");
                idle();
                strict = false;
                if (certErrors == e0)
                    fail("lib-tls", "the certificate errors are not reported");
                for (size_t k = linksBefore; k < proxy.links.size(); k++) {
                    if (!proxy.links[k]->in.isEmpty())
                        fail("lib-tls", "sends to a proxy with a wrong certificate: " + hexs(proxy.links[k]->in, 60));
                    if (!proxy.links[k]->closed())
                        fail("lib-tls", "keeps the connection to a proxy with a wrong certificate");
                }
                if (ups != downs)
                    fail("lib-tls", "connected to a proxy with a wrong certificate");
                distrusts++;
                continue;
            }
            if (!again)
                start(false);
            again = false;
            c.trace(QString("cycle %1").arg(i));
            if (handshake()) {
                if (i > 8)
                    break;
                again = tunnel();
            }
        }
        idle();
        rc.reset();
        for (int i = 0; i < 3; i++)
            round();
    }
};

void run(Src &s, Ctx &c)
{
    Tr tr = s.chance(1, 3) ? Tr::Ws : Tr::Tcp;
    bool tls = s.chance(1, 8);
    Sess x(s, c, tr, tls);
    x.run();
    c.label("cycles", x.cycles);
    c.label("tunnels", x.tunnels);
    c.label("refused or cut handshakes", x.refusals);
    c.label("replies with tunnel data behind", x.fused);
    c.label("split reads", x.pieces);
    c.label("refused certificates", x.distrusts);
    c.label(std::string("sessions over ") + trName(tr) + (tls ? " with TLS" : ""));
    if (x.tunnels)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C17";
    p.rule = "sessions of one remote connection object with a scripted proxy over TCP or WebSocket, plain or TLS: 1 to 4 cycles of connecting, Hello, registration (accepted, refused, answered with an error, closed, reset or given up at any byte), tunnel data in both directions with any bytes and chunking (also in the same segment as the registration reply), and an end (close, reset, disconnect, disconnect or reconnect inside a handler, reconnect while connected, deletion); at times nobody listens, or the user does not accept the proxy's certificate. Non-trivial: at least one tunnel was established. Distinct by history.";
    p.assumptions = {"the proxy's answers are one line of compact JSON each, as the proxy sends them", "over WebSocket tunnel data is UTF-8 text", "a disconnect by the user may drop data that is not yet sent"};
    p.run = run;
    p.quickCases = 2500;
    p.thoroughCases = 60000;
    return p;
}
