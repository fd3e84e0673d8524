// C12: unfinished requests of unregistered peers are limited to 10 KiB.
#include "mix.h"
#include <QJsonDocument>

namespace {
const int Limit = 10240;

struct Filler {
    World &w;
    Mixer &x;
    // what a connection has begun to send: 'rest' completes it
    struct Begun {
        int conn = -1;
        int sent = 0;
        QByteArray rest;
        std::function<void()> expect; // model effect of completing it
        bool registers = false;
    };
    std::vector<Begun> begun;
    int atLimit = 0, overLimit = 0, completed = 0, tricky = 0, refusedRegistrations = 0, answered = 0;
    int uuidCounter = 100;

    bool busy(int i)
    {
        for (auto &b : begun) {
            if (b.conn == i)
                return true;
        }
        return false;
    }
    std::vector<int> idle()
    {
        std::vector<int> v;
        for (int i : w.byState(Conn::None)) {
            if (!busy(i))
                v.push_back(i);
        }
        return v;
    }
    int anyIdle()
    {
        std::vector<int> v = idle();
        if (v.empty() || (v.size() < 3 && w.s.chance(1, 3))) {
            if (w.live().size() >= 12)
                return -1;
            int k = x.newConn(w.anyTransport(3, 3, 3));
            w.c.trace(QString("connect #%1 %2").arg(k).arg(trName(w.at(k).tr)));
            return k;
        }
        return w.s.pick(v);
    }
    QUuid freshUuid()
    {
        return QUuid(0xfeed0000u + uint(uuidCounter++), 1, 0x4000, 0x80, 1, 1, 1, 1, 1, 1, 1);
    }

    // a request of exactly 'len' bytes (or a little less)
    QByteArray request(int len, int conn, bool *registers, std::function<void()> *expect)
    {
        Src &s = w.s;
        Conn &k = w.at(conn);
        *registers = false;
        int kind = s.weighted({3, 2, 2, 2});
        int id = s.range(1, 1000);
        QByteArray head, tail;
        if (kind == 0 && k.tr != Tr::Ws) {
            QUuid u = freshUuid();
            *registers = true;
            head = "{\"id\":" + QByteArray::number(id) + ",\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverUuid\":\"" + u.toByteArray() + "\",\"serverName\":\"";
            tail = "\"}}";
            int n = std::max(0, len - head.size() - tail.size());
            QByteArray name = pad(n);
            *expect = [this, conn, id, u, name]() {
                w.regServer(w.at(conn), id, u.toString(), QString::fromUtf8(name)); // the rendering is not used
            };
            return head + name + tail;
        }
        if (kind == 1) {
            head = "{\"id\":" + QByteArray::number(id) + ",";
            tail = "\"method\":\"RemoteProxy.Hello\"}";
            *expect = [this, conn, id]() { w.hello(w.at(conn), id); };
            return head + QByteArray(std::max(0, len - head.size() - tail.size()), s.chance(1, 2) ? ' ' : '\t') + tail;
        }
        if (kind == 2) {
            // members nobody knows, nested
            head = "{\"x\":{\"y\":{\"z\":\"";
            tail = "\"}},\"id\":" + QByteArray::number(id) + ",\"method\":\"TunnelProxy.Ping\",\"params\":{\"timestamp\":5}}";
            *expect = [this, conn, id]() { w.ping(w.at(conn), id, 5.0); };
            return head + pad(std::max(0, len - head.size() - tail.size())) + tail;
        }
        head = "{\"id\":" + QByteArray::number(id) + ",\"method\":\"TunnelProxy.Ping\",\"params\":{\"timestamp\":5},\"note\":\"";
        tail = "\"}";
        *expect = [this, conn, id]() { w.ping(w.at(conn), id, 5.0); };
        return head + pad(std::max(0, len - head.size() - tail.size())) + tail;
    }
    QByteArray pad(int n)
    {
        switch (w.s.weighted({3, 1, 1})) {
        case 0: return QByteArray(n, 'a');
        case 1: {
            QByteArray r;
            while (r.size() + 2 <= n)
                r += "\xc3\xa4";
            return r + QByteArray(n - r.size(), 'b');
        }
        default: {
            QByteArray r;
            while (r.size() < n)
                r += QByteArray::number(r.size()) + "{ [,";
            return r.left(n);
        }
        }
    }

    Chunks cut(const Conn &k, const QByteArray &b)
    {
        Src &s = w.s;
        Chunks ch;
        if (b.size() > 2 && s.chance(1, 2)) {
            int n = s.chance(1, 6) ? 40 : s.range(1, 5);
            for (int i = 0; i < n; i++)
                ch.cuts.push_back(1 + int(s.draw(quint64(b.size() - 1))));
            std::sort(ch.cuts.begin(), ch.cuts.end());
            ch.cuts.erase(std::unique(ch.cuts.begin(), ch.cuts.end()), ch.cuts.end());
            ch.pumpBetween = s.chance(1, 2);
        }
        if (k.tr == Tr::Ws) {
            ch.wsFragments = s.chance(1, 3);
            if (!ch.wsFragments) {
                for (int &p : ch.cuts) {
                    while (p < b.size() && (uchar(b[p]) & 0xC0) == 0x80)
                        p++;
                }
                ch.cuts.erase(std::unique(ch.cuts.begin(), ch.cuts.end()), ch.cuts.end());
                while (!ch.cuts.empty() && ch.cuts.back() >= b.size())
                    ch.cuts.pop_back();
            }
        }
        return ch;
    }
    // no WebSocket message ends within a character
    static int whole(const QByteArray &b, int p)
    {
        while (p > 0 && p < b.size() && (uchar(b[p]) & 0xC0) == 0x80)
            p--;
        return p;
    }

    // finished requests, together more than the limit
    void opAnswered()
    {
        int i = anyIdle();
        if (i < 0)
            return;
        Conn &k = w.at(i);
        int n = w.s.range(2, 12);
        QByteArray out;
        for (int j = 0; j < n; j++) {
            int id = w.freshId();
            QByteArray r = w.ping(k, id, double(j));
            r.chop(1);
            r += ",\"note\":\"" + QByteArray(w.s.pick<int>({10, 900, 2500}), 'n') + "\"}";
            out += r + "\n";
        }
        w.c.trace(QString("%1: %2 requests, %3 bytes").arg(w.describe(k)).arg(n).arg(out.size()));
        answered += n;
        // the last newline comes with its request: a late one is buffered in front of the next request
        w.transmit(k, out, cut(k, out.left(out.size() - 1)));
        w.settle("request");
    }

    // the beginning of a request, at most the limit
    void opBegin()
    {
        int i = anyIdle();
        if (i < 0)
            return;
        Conn &k = w.at(i);
        Src &s = w.s;
        int len;
        switch (s.weighted({2, 4, 2})) {
        case 0: len = s.range(100, 6000); break;
        case 1: len = Limit + 1 - s.range(0, 12); break;
        default: len = s.range(11000, 70000); break; // can never be completed
        }
        Begun b;
        b.conn = i;
        QByteArray r = request(len, i, &b.registers, &b.expect);
        int n;
        switch (s.weighted({2, 3, 2})) {
        case 0: n = s.range(1, std::min(r.size() - 1, Limit)); break;
        case 1: n = std::min(r.size() - 1, Limit); break;
        default: n = std::min(r.size() - 1, Limit - s.range(0, 3)); break;
        }
        if (k.tr == Tr::Ws)
            n = whole(r, n);
        while (n > 0 && r[n - 1] == '}')
            n--;
        if (n <= 0)
            return;
        b.rest = r.mid(n);
        b.sent = n;
        if (n >= Limit - 3)
            atLimit++;
        QByteArray head = r.left(n);
        w.c.trace(QString("%1 begins a request of %2 bytes with %3 of them").arg(w.describe(k)).arg(r.size()).arg(n));
        w.transmit(k, head, noBraceCuts(cut(k, head), head));
        begun.push_back(b);
        w.settle("partial");
    }
    static Chunks noBraceCuts(Chunks ch, const QByteArray &b)
    {
        for (size_t i = 0; i < ch.cuts.size();) {
            if (b[ch.cuts[i] - 1] == '}')
                ch.cuts.erase(ch.cuts.begin() + long(i));
            else
                i++;
        }
        return ch;
    }
    int pickBegun()
    {
        for (size_t i = 0; i < begun.size();) {
            if (w.at(begun[i].conn).st != Conn::None)
                begun.erase(begun.begin() + long(i));
            else
                i++;
        }
        return begun.empty() ? -1 : int(w.s.draw(begun.size()));
    }

    // more of what has begun, still within the limit; perhaps all of it
    void opContinue()
    {
        int i = pickBegun();
        if (i < 0)
            return;
        Begun &b = begun[size_t(i)];
        Conn &k = w.at(b.conn);
        if (b.sent + b.rest.size() - 1 <= Limit && w.s.chance(2, 3)) {
            QByteArray r = b.rest;
            b.expect();
            bool reg = b.registers;
            w.c.trace(QString("%1 completes its request of %2 bytes").arg(w.describe(k)).arg(b.sent + r.size()));
            if (b.sent + r.size() > Limit - 20)
                tricky++;
            completed++;
            begun.erase(begun.begin() + i);
            Chunks ch = cut(k, r);
            w.transmit(k, reg ? r : r + (w.s.chance(1, 2) ? "\n" : ""), noBraceCuts(ch, r));
            w.settle(reg ? "register" : "request");
            return;
        }
        int room = std::min(Limit - b.sent, b.rest.size() - 1);
        if (room <= 0)
            return;
        int n = w.s.chance(1, 2) ? room : w.s.range(1, room);
        if (k.tr == Tr::Ws)
            n = whole(b.rest, n);
        while (n > 0 && b.rest[n - 1] == '}')
            n--;
        if (n <= 0)
            return;
        QByteArray part = b.rest.left(n);
        b.rest.remove(0, n);
        b.sent += n;
        if (b.sent >= Limit - 3)
            atLimit++;
        w.c.trace(QString("%1 sends %2 more bytes, %3 now").arg(w.describe(k)).arg(n).arg(b.sent));
        w.transmit(k, part, noBraceCuts(cut(k, part), part));
        w.settle("partial");
    }

    // beyond the limit
    void opOverflow()
    {
        Src &s = w.s;
        int i = pickBegun();
        Begun b;
        if (i >= 0 && s.chance(2, 3)) {
            b = begun[size_t(i)];
            begun.erase(begun.begin() + i);
        } else {
            b.conn = anyIdle();
            if (b.conn < 0)
                return;
        }
        Conn &k = w.at(b.conn);
        QByteArray pre;
        bool oneChunk = false;
        if (b.sent == 0 && s.chance(1, 2)) {
            // complete requests in the very same chunk: nothing of it is executed
            oneChunk = true;
            if (k.tr != Tr::Ws && s.chance(1, 2)) {
                pre = "{\"id\":1,\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverUuid\":\"" + freshUuid().toByteArray() + "\",\"serverName\":\"x\"}}\n";
                refusedRegistrations++;
            } else {
                pre = "{\"id\":1,\"method\":\"RemoteProxy.Hello\"}\n";
            }
        }
        int over = Limit + (s.chance(1, 2) ? s.range(1, 3) : s.range(1, oneChunk ? 9000 : 50000)) - b.sent;
        QByteArray fill;
        if (s.chance(1, 2) && b.rest.size() > over) {
            fill = b.rest.left(over);
        } else if (b.sent == 0) {
            bool reg;
            std::function<void()> e;
            fill = request(over + 200, b.conn, &reg, &e).left(over);
        } else {
            fill = QByteArray(over, 'z');
        }
        // no closing brace (would be a complete, broken message) and no broken character at the end
        fill.replace("}", ")");
        while (QString::fromUtf8(fill).toUtf8() != fill && !fill.isEmpty())
            fill.chop(1);
        fill += QByteArray(over - fill.size(), 'z');
        w.c.trace(QString("%1 sends %2 bytes%3: %4 unfinished bytes").arg(w.describe(k)).arg(pre.size() + over).arg(pre.isEmpty() ? "" : " behind a request in one chunk").arg(b.sent + over));
        overLimit++;
        w.expectClose(k, "buffer");
        w.transmit(k, pre + fill, oneChunk ? Chunks() : noBraceCuts(cut(k, fill), fill));
        w.settle("overflow");
    }
};

void run(Src &s, Ctx &c)
{
    World w(s, c, {"close-missing:buffer", "close-unexpected@partial", "close-unexpected@request", "close-unexpected@register", "close-unexpected@overflow", "reply", "regreply", "errreply", "stats-count", "stall"});
    SutOptions o;
    o.inactiveTimeout = 1000000;
    w.start(o);
    Mix m;
    m.warmServers = s.range(0, 1);
    m.warmClients = s.range(0, 1);
    Mixer x(w, m);
    x.warmup();
    Filler f{w, x, {}};
    int n = s.range(8, 40);
    for (int i = 0; i < n; i++) {
        Span sp(s);
        switch (s.weighted({6, 6, 3, 4, 1, 1, 1})) {
        case 0: f.opBegin(); break;
        case 1: f.opContinue(); break;
        case 2: f.opOverflow(); break;
        case 3: f.opAnswered(); break;
        case 4: x.clientSend(-1, true); break;
        case 5: x.serverSend(-1, true); break;
        default:
            w.c.trace("monitor");
            w.step = "monitor";
            w.checkMonitor(true);
            break;
        }
    }
    w.finish();
    c.label("unfinished requests at the limit", f.atLimit);
    c.label("over the limit", f.overLimit);
    c.label("completed", f.completed);
    c.label("completed with a size at the limit", f.tricky);
    c.label("registrations in front of an overflow", f.refusedRegistrations);
    c.label("requests in batches", f.answered);
    if (f.overLimit && (f.completed || f.atLimit))
        c.nontrivial();
}
}

Property makeProperty()
{
    Property p;
    p.id = "C12";
    p.rule = "a session in which unregistered connections on all transports begin, continue, complete and exceed requests of up to 10 KiB in any chunking, with sizes concentrated within a few bytes of the limit, interleaved with batches of answered requests; the monitor's totals are compared too. Non-trivial: a connection exceeded the limit and another one reached it or completed its request. Distinct by the session's operations.";
    p.run = run;
    p.quickCases = 3000;
    p.thoroughCases = 60000;
    return p;
}
