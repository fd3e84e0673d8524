// C23: methods that answer later.
#include "engine.h"
#include "jsonrpc/jsonhandler.h"
#include "jsonrpc/jsonreply.h"
#include "jsonrpc/jsontypes.h"
#include "server/jsonrpcserver.h"
#include "server/transportclient.h"
#include "server/transportinterface.h"
#include "sut.h"
#include "vclock.h"
#include "world.h"
#include <QCoreApplication>
#include <QJsonDocument>
#include <QJsonObject>
#include <QPointer>
#include <memory>

using namespace remoteproxy;

namespace c23 {

// the handler of a user of the server library
class Slow : public JsonHandler
{
    Q_OBJECT
public:
    Slow()
    {
        QVariantMap p, r;
        p.insert("tag", JsonTypes::basicTypeToString(JsonTypes::Int));
        r.insert("tag", JsonTypes::basicTypeToString(JsonTypes::Int));
        r.insert("text", JsonTypes::basicTypeToString(JsonTypes::String));
        for (const char *m : {"Work", "Other", "Now"}) {
            setDescription(m, "x");
            setParams(m, p);
            setReturns(m, r);
        }
    }
    QString name() const override { return "Slow"; }
    Q_INVOKABLE JsonReply *Work(const QVariantMap &params, TransportClient *) { return later("Work", params); }
    Q_INVOKABLE JsonReply *Other(const QVariantMap &params, TransportClient *) { return later("Other", params); }
    Q_INVOKABLE JsonReply *Now(const QVariantMap &params, TransportClient *)
    {
        QVariantMap r;
        r.insert("tag", params.value("tag").toInt());
        r.insert("text", "now");
        return createReply("Now", r);
    }
    std::function<void(int tag, JsonReply *)> started;

private:
    JsonReply *later(const QString &m, const QVariantMap &params)
    {
        JsonReply *r = createAsyncReply(m);
        started(params.value("tag").toInt(), r);
        return r;
    }
};

class Wire : public TransportInterface
{
    Q_OBJECT
public:
    Wire() { m_serverName = "scripted"; }
    void sendData(const QUuid &id, const QByteArray &d) override { sent(id, d); }
    void killClientConnection(const QUuid &id, const QString &) override { killed(id); }
    void abortClientConnection(const QUuid &id) { killed(id); }
    uint connectionsCount() const override { return 0; }
    bool running() const override { return true; }
    bool startServer() override { return true; }
    bool stopServer() override { return true; }
    std::function<void(const QUuid &, const QByteArray &)> sent;
    std::function<void(const QUuid &)> killed;
};

class Client : public TransportClient
{
    Q_OBJECT
public:
    Client(Wire *w, const QUuid &id) : TransportClient(w, id, QHostAddress::LocalHost) {}
    QList<QByteArray> processData(const QByteArray &d) override
    {
        QList<QByteArray> r;
        for (const QByteArray &l : d.split('\n')) {
            if (!l.isEmpty())
                r << l;
        }
        return r;
    }
};
}
#include "C23.moc"
using namespace c23;

namespace {
struct Con {
    int idx;
    QUuid id;
    QPointer<Client> cl;
    bool live = true;      // registered with the server
    bool killed = false;
    bool syncEnd = true;   // a kill ends it at once
    bool slip = false;
    QByteArray in;
    int kills = 0;
};
struct Job {
    int tag;
    int id;                // request id
    int con;
    QPointer<JsonReply> reply;
    bool open = true;      // the handler can still finish it
    bool answered = false; // the client has its reply
    bool done = false;     // finished or timed out
    bool sync = false;
    qint64 from = 0, limit = 0;
    // expectation: 0 none, 1 success, 2 failed, 3 timeout
    int expect = 0;
    QString text;
};

struct Rig {
    Src &s;
    Ctx &c;
    Sut sut;
    std::unique_ptr<Wire> wire;
    std::unique_ptr<Slow> slow;
    std::unique_ptr<JsonRpcServer> server;
    std::vector<std::unique_ptr<Con>> cons;
    std::vector<std::unique_ptr<Job>> jobs;
    int limitMs = 10000;
    int finished = 0, failed = 0, timeouts = 0, orphans = 0, same = 0, nested = 0;
    int finishOnEnd = -1;

    Rig(Src &src, Ctx &ctx) : s(src), c(ctx), sut(ctx) {}
    [[noreturn]] void fail(const std::string &cat, const QString &m) { c.fail(cat, m + "\nhistory:\n" + c.traceText.right(4000)); }

    Con *byId(const QUuid &id)
    {
        for (auto &k : cons) {
            if (k->id == id)
                return k.get();
        }
        return nullptr;
    }
    void drop(Con &k)
    {
        if (!k.live)
            return;
        k.live = false;
        for (auto &j : jobs) {
            if (j->con == k.idx && !j->done)
                orphans++;
        }
        server->unregisterClient(k.cl);
        k.cl->deleteLater();
    }
    void onSent(const QUuid &id, const QByteArray &d)
    {
        Con *k = byId(id);
        if (!k)
            fail("async-target", "data for a connection that does not exist");
        if (!k->live)
            fail("async-late", QString("data for connection %1, which is gone: ").arg(k->idx) + QString::fromUtf8(d));
        QByteArray line = d;
        if (k->slip) {
            // one frame to address 0
            QByteArray raw;
            for (int i = 0; i < d.size(); i++) {
                uchar b = uchar(d[i]);
                if (b == 0xC0)
                    continue;
                if (b == 0xDB && i + 1 < d.size())
                    b = uchar(d[++i]) == 0xDC ? 0xC0 : 0xDB;
                raw.append(char(b));
            }
            if (!raw.startsWith(QByteArray(2, 0)))
                fail("async-frame", "not a frame for address 0: " + hexs(d));
            line = raw.mid(2);
        }
        if (!line.endsWith('\n') || line.count('\n') != 1)
            fail("async-frame", "not one line: " + QString::fromUtf8(line));
        QJsonObject o = QJsonDocument::fromJson(line).object();
        if (!o["id"].isDouble())
            fail("async-reply", "no id in " + QString::fromUtf8(line));
        int rid = o["id"].toInt();
        // which job is it for
        Job *j = nullptr;
        for (auto &x : jobs) {
            if (x->con == k->idx && x->id == rid && !x->answered && x->expect)
                j = x.get();
        }
        if (!j) {
            bool pending = false, answered = false;
            for (auto &x : jobs) {
                pending |= x->con == k->idx && x->id == rid && !x->done;
                answered |= x->con == k->idx && x->id == rid && x->answered;
            }
            // a timeout is noticed here
            if (pending && o["status"].toString() == "error") {
                for (auto &x : jobs) {
                    if (x->con == k->idx && x->id == rid && !x->done && !x->sync) {
                        qint64 waited = vclock::nowMs() - x->from;
                        if (waited * 100 < x->limit * 94)
                            fail("async-timeout", QString("request %1 times out after %2 ms, the limit is %3 ms").arg(rid).arg(waited).arg(x->limit));
                        x->done = x->answered = true;
                        x->expect = 3;
                        timeouts++;
                        if (!o["error"].isString() || o.contains("params"))
                            fail("async-reply", "the error reply is " + QString::fromUtf8(line));
                        return;
                    }
                }
            }
            fail("async-extra", QString("connection %1 gets %2, request %3 is %4").arg(k->idx).arg(QString::fromUtf8(line)).arg(rid).arg(pending ? "not finished" : answered ? "answered already" : "unknown"));
        }
        if (o["status"].toString() != "success" || o.contains("error") || o["params"].toObject()["tag"].toInt(-1) != j->tag || o["params"].toObject()["text"].toString() != j->text || o["params"].toObject().size() != 2)
            fail("async-reply", QString("request %1 (tag %2, '%3') is answered with ").arg(rid).arg(j->tag).arg(j->text) + QString::fromUtf8(line));
        j->answered = true;
    }
    void onKilled(const QUuid &id)
    {
        Con *k = byId(id);
        if (!k)
            fail("async-target", "kill of a connection that does not exist");
        if (!k->live)
            fail("async-late", QString("kill of connection %1, which is gone").arg(k->idx));
        bool reason = false;
        for (auto &j : jobs) {
            if (j->con == k->idx && (j->expect == 2 || j->expect == 3) && j->answered)
                reason = true;
        }
        if (!reason)
            fail("async-kill", QString("connection %1 is killed without a reason, or before the reply").arg(k->idx));
        k->kills++;
        k->killed = true;
        if (k->syncEnd) {
            drop(*k);
            // a handler which reacts to the end of the client
            if (finishOnEnd >= 0) {
                int f = finishOnEnd;
                finishOnEnd = -1;
                if (f < int(jobs.size()) && jobs[size_t(f)]->open && !jobs[size_t(f)]->done) {
                    nested++;
                    finish(*jobs[size_t(f)], true);
                }
            }
        }
    }
    void turn(int n = 2)
    {
        for (int i = 0; i < n; i++)
            Sut::spin();
        c.beat();
        check();
    }
    void check()
    {
        for (auto &j : jobs) {
            Con &k = *cons[size_t(j->con)];
            if (j->expect && !j->answered && k.live && !k.killed)
                fail("async-missing", QString("request %1 of connection %2 is not answered").arg(j->id).arg(k.idx));
            if ((j->expect == 2 || j->expect == 3) && k.live && !k.killed)
                fail("async-kill", QString("connection %1 is not disconnected after request %2").arg(k.idx).arg(j->id));
            if (!j->done && !j->sync && k.live && !k.killed) {
                qint64 waited = vclock::nowMs() - j->from;
                if (waited * 100 > j->limit * 106 + 1000)
                    fail("async-timeout", QString("request %1 of connection %2 waits for %3 ms, the limit is %4 ms").arg(j->id).arg(k.idx).arg(waited).arg(j->limit));
            }
        }
        for (auto &k : cons) {
            if (k->kills > 1 && k->syncEnd)
                fail("async-kill", QString("connection %1 is killed twice").arg(k->idx));
        }
    }

    void connectClient()
    {
        auto k = std::make_unique<Con>();
        k->idx = int(cons.size());
        k->id = QUuid(0x100u + uint(k->idx), 2, 0x4000, 0x80, 1, 1, 1, 1, 1, 1, 1);
        k->syncEnd = !s.chance(1, 3);
        k->slip = s.chance(1, 3);
        k->cl = new Client(wire.get(), k->id);
        k->cl->setSlipEnabled(k->slip);
        c.trace(QString("connection %1%2%3").arg(k->idx).arg(k->slip ? " SLIP" : "", k->syncEnd ? "" : ", ends late"));
        server->registerClient(k->cl);
        cons.push_back(std::move(k));
    }
    std::vector<Con *> usable()
    {
        std::vector<Con *> r;
        for (auto &k : cons) {
            if (k->live && !k->killed)
                r.push_back(k.get());
        }
        return r;
    }
    void request(Con *k, int n)
    {
        QByteArray out;
        QStringList t;
        size_t first = jobs.size();
        for (int i = 0; i < n; i++) {
            auto j = std::make_unique<Job>();
            j->tag = int(jobs.size());
            j->con = k->idx;
            // one id is used by several connections, and again by the same one when it is answered
            j->id = s.range(0, 12);
            bool clash = false;
            for (auto &o : jobs)
                clash |= o->con == k->idx && o->id == j->id && !o->answered;
            if (clash)
                j->id = 1000 + j->tag;
            j->sync = s.chance(1, 5);
            j->limit = limitMs;
            QString m = j->sync ? "Slow.Now" : s.chance(1, 3) ? "Slow.Other" : "Slow.Work";
            if (j->sync) {
                j->expect = 1;
                j->done = true;
                j->text = "now";
            }
            t << QString("%1 id %2 tag %3").arg(m).arg(j->id).arg(j->tag);
            out += "{\"id\":" + QByteArray::number(j->id) + ",\"method\":\"" + m.toUtf8() + "\",\"params\":{\"tag\":" + QByteArray::number(j->tag) + "}}\n";
            jobs.push_back(std::move(j));
        }
        c.trace(QString("connection %1: ").arg(k->idx) + t.join("; "));
        server->processData(k->cl, out);
        for (size_t i = first; i < jobs.size(); i++) {
            if (!jobs[i]->sync && !jobs[i]->reply)
                fail("async-call", QString("request %1 is not called").arg(jobs[i]->id));
        }
    }
    void finish(Job &j, bool ok)
    {
        JsonReply *r = j.reply;
        j.open = false;
        if (!r)
            return; // timed out and deleted
        Con &k = *cons[size_t(j.con)];
        j.text = s.unicode(10);
        QVariantMap d;
        d.insert("tag", j.tag);
        d.insert("text", j.text);
        r->setData(d);
        if (!ok)
            r->setSuccess(false);
        if (!j.done && k.live) {
            j.done = true;
            j.expect = ok ? 1 : 2;
        }
        j.done = true;
        (ok ? finished : failed)++;
        emit r->finished();
        if (r)
            j.reply = r;
    }
    std::vector<Job *> openJobs()
    {
        std::vector<Job *> r;
        for (auto &j : jobs) {
            if (!j->sync && j->open && !j->done && j->reply)
                r.push_back(j.get());
        }
        return r;
    }

    void op()
    {
        std::vector<Con *> u = usable();
        std::vector<Job *> o = openJobs();
        switch (s.weighted({u.empty() ? 0 : 8, o.empty() ? 0 : 7, u.size() < 6 ? 3 : 0, o.empty() ? 0 : 2, 3, 3, 1})) {
        case 0: request(s.pick(u), s.weighted({4, 2, 1, 1}) + 1); break;
        case 1: {
            Job *j = s.pick(o);
            c.trace(QString("finish tag %1%2").arg(j->tag).arg(cons[size_t(j->con)]->live ? "" : " of a connection that is gone"));
            finish(*j, true);
            break;
        }
        case 2: connectClient(); break;
        case 3: {
            Job *j = s.pick(o);
            c.trace(QString("fail tag %1").arg(j->tag));
            finishOnEnd = s.chance(1, 4) ? s.pick(o)->tag : -1;
            finish(*j, false);
            finishOnEnd = -1;
            break;
        }
        case 4: {
            // a connection ends
            std::vector<Con *> l;
            for (auto &k : cons) {
                if (k->live)
                    l.push_back(k.get());
            }
            if (l.empty())
                break;
            Con *k = s.pick(l);
            c.trace(QString("connection %1 ends").arg(k->idx));
            drop(*k);
            break;
        }
        case 5: {
            int ms = s.weighted({2, 3, 1}) == 0 ? s.range(1, 300) : s.chance(1, 3) ? limitMs + limitMs / 10 : s.range(1, limitMs);
            c.trace(QString("%1 ms pass").arg(ms));
            // coarse enough for the limits
            int step = std::max(20, limitMs / 60);
            while (ms > 0) {
                vclock::advanceMs(std::min(ms, step));
                ms -= step;
                turn();
            }
            break;
        }
        default:
            limitMs = s.pick<int>({10000, 300, 2000, 60000});
            c.trace(QString("limit %1 ms").arg(limitMs));
            Engine::instance()->configuration()->setJsonRpcTimeout(limitMs);
            break;
        }
        if (s.chance(3, 4))
            turn();
        else
            check();
    }

    void run()
    {
        SutOptions o;
        sut.start(o);
        wire = std::make_unique<Wire>();
        slow = std::make_unique<Slow>();
        server = std::make_unique<JsonRpcServer>();
        server->registerHandler(slow.get());
        server->registerHandler(server.get());
        wire->sent = [this](const QUuid &id, const QByteArray &d) { onSent(id, d); };
        wire->killed = [this](const QUuid &id) { onKilled(id); };
        slow->started = [this](int tag, JsonReply *r) {
            if (tag < 0 || tag >= int(jobs.size()) || jobs[size_t(tag)]->reply)
                fail("async-call", QString("the method is called with tag %1").arg(tag));
            jobs[size_t(tag)]->reply = r;
            jobs[size_t(tag)]->from = vclock::nowMs();
        };
        Engine::instance()->configuration()->setJsonRpcTimeout(limitMs);
        connectClient();
        for (int i = s.range(3, 40); i > 0; i--) {
            Span sp(s);
            op();
        }
        turn();
        // the end of everything, in some order
        bool late = s.chance(1, 3);
        for (auto &k : cons)
            drop(*k);
        if (late) {
            c.trace("the server goes first");
            server.reset();
        }
        for (Job *j : openJobs())
            finish(*j, !s.chance(1, 4));
        Sut::spin();
        server.reset();
        slow.reset();
        Sut::spin();
        wire.reset();
        sut.stop();
    }
};

void run(Src &s, Ctx &c)
{
    Rig x(s, c);
    x.run();
    c.label("requests", long(x.jobs.size()));
    c.label("finished", x.finished);
    c.label("failed", x.failed);
    c.label("timeouts", x.timeouts);
    c.label("replies without a client", x.orphans);
    c.label("nested finishes", x.nested);
    if (x.finished + x.failed + x.timeouts >= 2)
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C23";
    p.rule = "histories over a JsonRpcServer with a handler whose methods answer later and up to 6 connections of a scripted transport (plain and SLIP, ending at once or late when killed): batches of deferred and immediate requests with shared and reused ids, finishes in any order, failures, timeouts on a virtual clock with changing limits, ends of connections with any number of pending replies, finishes from within a disconnect, and the server's end before its replies. Non-trivial: at least two deferred replies that end. Distinct by history.";
    p.assumptions = {"tolerance of 6 % of the limit plus 10 ms for coarse timers", "replies to a connection that has been killed and has not ended yet are not judged"};
    p.run = run;
    p.quickCases = 6000;
    p.thoroughCases = 400000;
    return p;
}
