// A raw protocol peer on a non-blocking POSIX socket: Unix, TCP, WebSocket, each optionally with TLS.
#pragma once
#include <QByteArray>
#include <QString>
#include <vector>

enum class Tr { Unix, Tcp, Ws };
const char *trName(Tr t); // as in the monitor's statistics

typedef struct ssl_st SSL;

struct WsMode {            // how a text message is put on the wire
    std::vector<int> cuts; // payload positions where a new continuation frame starts
    int pingAfter = -1;    // a ping between fragments after this fragment
    int opcode = 1;
    bool mask = true;
    bool rsv = false;
};

class Peer {
public:
    Peer(Tr tr, bool tls) : m_tr(tr), m_tls(tls) {}
    ~Peer();
    Peer(const Peer &) = delete;

    Tr transport() const { return m_tr; }
    bool tls() const { return m_tls; }
    // returns false when the endpoint refuses
    bool open(const QString &unixPath, int port, const char *host = "127.0.0.1");
    QByteArray from; // source address (TCP, WebSocket), if not the default one
    // service the socket; returns true if anything moved
    bool io();
    bool ready() const { return m_ready; }       // connected, TLS and WebSocket handshakes done
    bool closed() const { return m_closed; }      // the other side has closed (or reset) the connection
    bool opened() const { return m_fd >= 0; }
    bool outPending() const { return !m_out.isEmpty(); }
    bool paused = false;                          // do not read

    void send(const QByteArray &chunk);           // one write, or one WebSocket text message
    void sendWs(const QByteArray &payload, const WsMode &mode);
    void sendWire(const QByteArray &raw);         // raw bytes below the WebSocket layer (above TLS)
    void sendPlain(const QByteArray &raw);        // raw bytes below TLS
    void shutdownWrite();
    void close();                                 // orderly
    void reset();                                 // RST (TCP), plain close (Unix)

    QByteArray in;                                // application bytes received and not consumed
    std::vector<QByteArray> messages;             // WebSocket messages, in addition to 'in'
    quint64 rxTotal = 0;                          // application bytes received
    quint64 txTotal = 0;                          // application bytes sent
    int pongs = 0;
    QByteArray wsError;                           // malformed output of the server
    bool tlsFailed = false;
    QByteArray plainIn;                           // bytes received while no TLS is spoken (rawMode)
    bool rawMode = false;                         // do not speak TLS or WebSocket at all
    int fd() const { return m_fd; }
    QByteArray peerCertificate() const;           // DER, after the TLS handshake

private:
    void parseWs();
    bool flushOut();
    void wire(const QByteArray &d);
    Tr m_tr;
    bool m_tls;
    int m_fd = -1;
    SSL *m_ssl = nullptr;
    bool m_tlsDone = false;
    bool m_wsDone = false;
    bool m_upgradeSent = false;
    bool m_ready = false;
    bool m_closed = false;
    bool m_closing = false;
    QByteArray m_out;                             // not yet written (above TLS)
    QByteArray m_wsIn;                            // WebSocket wire bytes
    QByteArray m_msg;                             // message being reassembled
    bool m_inMsg = false;
    quint32 m_maskCounter = 0x12345678;
};
