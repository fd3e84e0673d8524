// Random sessions over the World: which operations, how often.
#pragma once
#include "world.h"

struct Mix {
    int connect = 6, request = 6, regServer = 6, regClient = 10, clientSend = 10, serverSend = 10, disconnect = 3, close = 4, burst = 6, sendClose = 2;
    int badFrame = 0;    // share (percent) of bad pieces among server frames
    int badReg = 15;     // percent of registrations aimed at breaking a rule
    int invalid = 0;     // invalid input
    int trail = 25;      // percent of requests that end the connection which have other requests behind them
    int partial = 0;     // unfinished input on an unregistered connection
    int monitor = 0;
    int pause = 0;
    int backlog = 0;
    int wsBinary = 0;
    int unixW = 6, tcpW = 2, wsW = 2;
    int maxConns = 10;
    int minOps = 8, maxOps = 40;
    int maxPayload = 1500;
    int hugePercent = 0; // percent of payloads that are large
    int hugeMax = 300000;
    bool warmup = true;  // start with servers and clients
    int warmServers = 1, warmClients = 1; // clients per server
    int batch = 0;       // percent of request operations with many requests at once
    int control = 0;     // percent of control requests among a server's frames
    bool eager = false;  // WebSocket clients may send data right behind their registration
    int garbage = 0;     // connections that send something else than the protocol, outside the model
    bool stepTrace = true;
};

struct MixStats {
    int delivered = 0;   // data operations
    int regOk = 0, regRefused = 0, requests = 0, closes = 0, badFrames = 0, controls = 0, garbage = 0, eager = 0, trailed = 0, invalid = 0, disconnects = 0, bursts = 0, paused = 0, backlogs = 0, monitors = 0;
    int maxServers = 0, maxClients = 0;
    quint64 bytes = 0;
};

class Mixer {
public:
    Mixer(World &w, const Mix &m) : w(w), m(m) {}
    MixStats st;
    void run();
    void warmup();
    void op();

    // single operations, usable by the drivers
    void opConnect();
    void opRequests(int conn = -1);
    void opRegServer(int conn = -1);
    void opRegClient(int conn = -1);
    bool clientSend(int conn, bool settle);
    bool serverSend(int conn, bool settle);
    void opDisconnect();
    void opClose();
    void opSendClose();
    void opBurst();
    void opInvalid();
    void opPartial();
    void opMonitor();
    void opPause();
    void opBacklog();
    void opWsBinary();
    void opGarbage();
    int newConn(Tr t);
    void regServerNow(int conn, const QUuid &u, const QString &name);
    void regClientNow(int conn, const QUuid &u, int server, const QString &name);
    QByteArray invalidRequest(int *id); // *id is the id its reply must carry
    QByteArray badPiece();              // something between two END bytes that is no good frame (ends with END)

private:
    World &w;
    Mix m;
    void readAll(const char *what);
    QByteArray trailing(Conn &k, bool framed); // must have no effect
    int pickConn(const std::vector<int> &v);
};
