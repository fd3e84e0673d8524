// The proxy's side of the protocol for the client library: a listening socket and its accepted connections.
#pragma once
#include "peer.h"
#include "src.h"
#include <memory>

class Link {
public:
    Link(int fd, Tr tr, bool tls);
    ~Link();
    Link(const Link &) = delete;
    bool io();
    bool ready() const { return m_ready; }
    bool closed() const { return m_closed; }   // the library has closed the connection
    bool gone() const { return m_fd < 0; }     // closed by us
    bool outPending() const { return !m_out.isEmpty(); }
    bool idle() const;                         // everything sent is in the library's hands
    void send(const QByteArray &chunk);        // bytes, or one message
    void sendMessages(const std::vector<QByteArray> &msgs, Src *cuts); // one write; each message may be split into frames
    void close();
    void reset();
    bool paused = false;
    QByteArray in;
    std::vector<QByteArray> messages;          // WebSocket only
    QString error;

private:
    void flush();
    void parse();
    QByteArray frame(int op, bool fin, const QByteArray &pl) const;
    int m_fd;
    Tr m_tr;
    bool m_ready = false, m_closed = false, m_tlsDone = false, m_wsDone = false, m_closing = false;
    SSL *m_ssl = nullptr;
    QByteArray m_out, m_raw, m_msg;
};

class FakeProxy {
public:
    FakeProxy(Tr tr, bool tls) : m_tr(tr), m_tls(tls) {}
    ~FakeProxy() { stop(); }
    bool listen(int port);       // loopback
    void stop();
    bool listening() const { return m_fd >= 0; }
    int port() const { return m_port; }
    bool io();                   // accept and service every link
    std::vector<std::unique_ptr<Link>> links;

private:
    Tr m_tr;
    bool m_tls;
    int m_fd = -1, m_port = 0;
};
