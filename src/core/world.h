// Raw peers against the in-process proxy, with a reference model that predicts everything every peer may see.
#pragma once
#include "peer.h"
#include "src.h"
#include "sut.h"
#include <QJsonObject>
#include <QJsonValue>
#include <QMap>
#include <QSet>
#include <QUuid>
#include <deque>
#include <list>
#include <memory>
#include <vector>

struct ExpReply {
    int id = 0;
    std::string cat;            // category of a mismatch
    QString what;
    bool error = false;         // status must be "error"
    bool optional = false;      // need not come (nothing behind it, either)
    std::function<QString(const QJsonObject &params)> check; // empty: fine
    QSet<QString> codes;        // allowed tunnelProxyError values (if not empty)
    std::function<void(const QString &code)> after;
};

struct ExpNotif {
    bool connected;
    int client;                 // connection index
};

struct Conn {
    enum State { None, Server, Client, Dead };
    int idx = 0;
    Tr tr = Tr::Unix;
    std::unique_ptr<Peer> peer;
    State st = None;
    bool slip = false;          // this peer speaks SLIP now (proxy confirmed)
    bool raw = false;           // this peer gets tunnel data now
    bool poisoned = false;      // has sent something the model does not follow any further
    QUuid uuid;
    QString name;
    QString monitorId;          // what the monitor calls this connection
    QString address() const { return peer->from.isEmpty() ? QString("127.0.0.1") : QString::fromLatin1(peer->from); }
    int owner = -1;             // server connection of a client
    int lastOwner = -1;
    quint16 addr = 0;           // announced address
    bool announced = false;
    qint64 since = 0;           // virtual unix time of the connection
    qint64 sinceMs = 0;         // virtual monotonic
    qint64 lastRxMs = 0;        // last time it sent anything
    std::deque<ExpReply> replies;
    std::list<ExpNotif> notifs;
    QByteArray expIn;           // tunnel data this client has still to receive
    QByteArray expOut;          // tunnel data of this client its server has still to receive
    bool goneNotified = false;
    bool expectClosed = false;
    bool mayClose = false;
    std::string why;
    QByteArray slipBuf;
    quint64 statTx = 0;         // bytes the proxy has sent to it
    bool serverCapable = true;  // may become a server (uniform mode)
    QStringList log;            // JSON objects received, without the ids of notifications
};

struct Chunks {
    std::vector<int> cuts;      // positions where the byte string is cut into separate writes
    bool pumpBetween = true;
    bool wsFragments = false;   // WebSocket: use continuation frames instead of messages
    int pingAfter = -1;
    int wsEmpty = 0;            // WebSocket: a message without content, 1 before the others, 2 between them
};

class World {
public:
    World(Src &s, Ctx &c, const std::vector<std::string> &judged) : s(s), c(c), sut(c), judged(judged) {}

    Src &s;
    Ctx &c;
    Sut sut;
    std::vector<std::string> judged; // prefixes of the categories this check reports
    std::vector<std::unique_ptr<Conn>> conns;
    QList<QUuid> uuidPool;
    quint64 throughput = 0;          // payload bytes since the last tick
    std::string step;                // what is being done, for unexpected closes
    bool uniform = false;            // draw the same choices whatever the transports are (C14)
    std::function<Tr(bool serverCapable)> forced; // the transport of a connection in uniform mode
    bool asWs(const Conn &k) const { return uniform || k.tr == Tr::Ws; }

    void start(const SutOptions &o = SutOptions());
    void finish();                   // close everything and stop

    // model queries
    std::vector<int> live(bool withPoisoned = true) const;
    std::vector<int> byState(Conn::State st) const;
    std::vector<int> clientsOf(int server) const;
    int holder(const QUuid &u) const;      // live registered connection with this uuid, or -1
    int serverFor(const QUuid &u) const;
    Conn &at(int i) { return *conns[size_t(i)]; }

    // operations; each leaves the bytes in flight, settle() completes them
    int connect(Tr tr, bool wait = true);
    void transmit(Conn &k, const QByteArray &bytes, const Chunks &ch);
    QByteArray hello(Conn &k, int id);
    QByteArray ping(Conn &k, int id, const QJsonValue &ts);
    QByteArray introspect(Conn &k, int id);
    QByteArray regServer(Conn &k, int id, const QString &uuid, const QString &name);
    QByteArray regClient(Conn &k, int id, const QString &uuid, const QString &server, const QString &name);
    QByteArray disconnectClient(Conn &k, int id, const QJsonValue &addr);
    // wraps a request for the connection: control frame for servers, plain JSON otherwise
    QByteArray wrap(Conn &k, const QByteArray &json, bool newline);
    void expectError(Conn &k, int id, const std::string &why); // one error reply, then closed
    void clientSend(Conn &k, const QByteArray &payload); // adds the expectation and sends as one write
    QByteArray frameTo(Conn &server, quint16 addr, const QByteArray &payload); // adds the expectation
    void expectClose(Conn &k, const std::string &why);
    void closePeer(Conn &k, int mode); // 0 orderly, 1 reset
    void gone(Conn &k);                // model effect of a connection's end

    void settle(const std::string &what);
    void spin(int n = 5);
    void advance(qint64 ms);           // moves the clock and lets timers run; no settling
    [[noreturn]] void fail(const std::string &cat, const QString &msg);

    // whole monitor document as the model predicts it, compared with the actual one
    void checkMonitor(bool printAll, qint64 expectedThroughput = -1);
    void checkMonitorDoc(const QJsonObject &o, bool printAll, qint64 expectedThroughput = -1);
    QJsonObject monitorRequest(const QByteArray &request, bool *closed = nullptr);

    // generators
    Tr anyTransport(int unixW = 6, int tcpW = 2, int wsW = 2);
    QUuid poolUuid();
    QString spell(const QUuid &u);
    QString badUuid();
    QString freshName();
    int freshId();
    QByteArray render(int id, const QString &method, const QJsonObject &params, bool withParams = true, int style = -1);
    Chunks jsonChunks(const Conn &k, const QByteArray &json, bool keepNewline = false, int maxCuts = 4);
    Chunks dataChunks(const Conn &k, const QByteArray &bytes, int maxCuts = 6);
    Chunks rawChunks(const QByteArray &bytes, int maxCuts = 6);
    QByteArray payloadFor(const Conn &k, int max);

    static QByteArray slipFrame(quint16 addr, const QByteArray &payload);
    static QByteArray jsonString(const QString &str, bool ascii);
    QString describe(const Conn &k) const;

private:
    void parse(Conn &k);
    void onJson(Conn &k, const QByteArray &line);
    bool satisfied(QString *missing, std::string *cat) const;
    void tunnelIn(Conn &k, const QByteArray &data);
    QByteArray finishRequest(Conn &k, const QByteArray &json);
};
