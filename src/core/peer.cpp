#include "peer.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

const char *trName(Tr t)
{
    return t == Tr::Unix ? "unix" : t == Tr::Tcp ? "TCP" : "WebSocket";
}

static SSL_CTX *sslCtx()
{
    static SSL_CTX *c = nullptr;
    if (!c) {
        c = SSL_CTX_new(TLS_client_method());
        SSL_CTX_set_verify(c, SSL_VERIFY_NONE, nullptr);
        SSL_CTX_set_mode(c, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
    }
    return c;
}

Peer::~Peer()
{
    if (m_ssl)
        SSL_free(m_ssl);
    if (m_fd >= 0)
        ::close(m_fd);
}

bool Peer::open(const QString &unixPath, int port, const char *host)
{
    if (m_tr == Tr::Unix) {
        m_fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0); // fails with EAGAIN when the backlog is full
        struct sockaddr_un a;
        memset(&a, 0, sizeof a);
        a.sun_family = AF_UNIX;
        strncpy(a.sun_path, unixPath.toLocal8Bit().constData(), sizeof a.sun_path - 1);
        if (connect(m_fd, (struct sockaddr *) &a, sizeof a) != 0) {
            ::close(m_fd);
            m_fd = -1;
            return false;
        }
    } else {
        m_fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        int one = 1;
        setsockopt(m_fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        struct sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        if (!from.isEmpty() && inet_pton(AF_INET, from.constData(), &a.sin_addr) == 1) {
            setsockopt(m_fd, IPPROTO_IP, IP_BIND_ADDRESS_NO_PORT, &one, sizeof one);
            if (bind(m_fd, (struct sockaddr *) &a, sizeof a) != 0)
                from.clear();
        }
        a.sin_port = htons(quint16(port));
        inet_pton(AF_INET, host, &a.sin_addr);
        if (connect(m_fd, (struct sockaddr *) &a, sizeof a) != 0) {
            ::close(m_fd);
            m_fd = -1;
            return false;
        }
    }
    fcntl(m_fd, F_SETFL, fcntl(m_fd, F_GETFL) | O_NONBLOCK);
    if (m_tr == Tr::Unix) {
        m_tls = false;
        m_ready = true;
    } else if (!m_tls && (m_tr == Tr::Tcp || rawMode)) {
        m_ready = true;
    }
    if (rawMode)
        m_ready = true;
    if (m_tls && !rawMode) {
        m_ssl = SSL_new(sslCtx());
        SSL_set_fd(m_ssl, m_fd);
        SSL_set_connect_state(m_ssl);
    }
    io();
    return true;
}

QByteArray Peer::peerCertificate() const
{
    QByteArray r;
    X509 *x = m_ssl ? SSL_get1_peer_certificate(m_ssl) : nullptr;
    if (!x)
        return r;
    unsigned char *p = nullptr;
    int n = i2d_X509(x, &p);
    if (n > 0)
        r = QByteArray(reinterpret_cast<char *>(p), n);
    OPENSSL_free(p);
    X509_free(x);
    return r;
}

void Peer::wire(const QByteArray &d)
{
    m_out += d;
    if (m_ready || m_tr == Tr::Ws)
        flushOut();
}

bool Peer::flushOut()
{
    bool moved = false;
    if (m_fd < 0 || (m_ssl && !m_tlsDone))
        return false;
    while (!m_out.isEmpty()) {
        ssize_t n;
        if (m_ssl) {
            ERR_clear_error();
            n = SSL_write(m_ssl, m_out.constData(), m_out.size());
            if (n <= 0)
                n = -1;
        } else {
            n = ::send(m_fd, m_out.constData(), size_t(m_out.size()), MSG_NOSIGNAL);
            if (n < 0 && errno != EAGAIN && errno != EINTR) {
                m_out.clear(); // the other side is gone; reading will tell
                return moved;
            }
        }
        if (n <= 0)
            break;
        m_out.remove(0, int(n));
        moved = true;
    }
    return moved;
}

bool Peer::io()
{
    if (m_fd < 0 || m_closed)
        return false;
    bool moved = false;
    if (m_ssl && !m_tlsDone) {
        ERR_clear_error();
        int r = SSL_do_handshake(m_ssl);
        if (r == 1) {
            m_tlsDone = true;
            moved = true;
            if (m_tr == Tr::Tcp)
                m_ready = true;
        } else {
            int e = SSL_get_error(m_ssl, r);
            if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) {
                m_closed = true;
                tlsFailed = true;
                return true;
            }
            return false;
        }
    }
    if (m_tr == Tr::Ws && !rawMode && !m_upgradeSent) {
        m_upgradeSent = true;
        QByteArray req = "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                         "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nOrigin: http://localhost\r\n\r\n";
        m_out = req + m_out;
        moved = true;
    }
    moved |= flushOut();
    if (paused)
        return moved;
    char buf[65536];
    for (;;) {
        ssize_t n;
        if (m_ssl) {
            ERR_clear_error();
            int r = SSL_read(m_ssl, buf, sizeof buf);
            if (r <= 0) {
                int e = SSL_get_error(m_ssl, r);
                if (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE)
                    break;
                n = 0;
            } else {
                n = r;
            }
        } else {
            n = recv(m_fd, buf, sizeof buf, 0);
            if (n < 0) {
                if (errno == EAGAIN || errno == EINTR)
                    break;
                n = 0; // reset
            }
        }
        if (m_tr != Tr::Unix) {
            int one = 1; // or Nagle's algorithm on the other side waits for a delayed ACK
            setsockopt(m_fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
        }
        moved = true;
        if (n == 0) {
            m_closed = true;
            break;
        }
        QByteArray d(buf, int(n));
        if (rawMode) {
            plainIn += d;
        } else if (m_tr == Tr::Ws) {
            m_wsIn += d;
            parseWs();
        } else {
            in += d;
            rxTotal += quint64(n);
        }
    }
    return moved;
}

void Peer::parseWs()
{
    if (!m_wsDone) {
        int p = m_wsIn.indexOf("\r\n\r\n");
        if (p < 0)
            return;
        if (!m_wsIn.startsWith("HTTP/1.1 101")) {
            wsError = "handshake refused: " + m_wsIn.left(40);
            m_closed = true;
            return;
        }
        m_wsIn.remove(0, p + 4);
        m_wsDone = true;
        m_ready = true;
    }
    for (;;) {
        const unsigned char *b = reinterpret_cast<const unsigned char *>(m_wsIn.constData());
        qint64 have = m_wsIn.size();
        if (have < 2)
            return;
        qint64 len = b[1] & 0x7f, hdr = 2;
        if (len == 126) {
            if (have < 4)
                return;
            len = b[2] << 8 | b[3];
            hdr = 4;
        } else if (len == 127) {
            if (have < 10)
                return;
            len = 0;
            for (int i = 2; i < 10; i++)
                len = len << 8 | b[i];
            hdr = 10;
        }
        if (b[1] & 0x80)
            wsError = "server frame is masked";
        if (have < hdr + len)
            return;
        int op = b[0] & 15;
        bool fin = b[0] & 0x80;
        QByteArray pl = m_wsIn.mid(int(hdr), int(len));
        m_wsIn.remove(0, int(hdr + len));
        switch (op) {
        case 0:
        case 1:
        case 2:
            if ((op == 0) != m_inMsg)
                wsError = "unexpected continuation state";
            if (op == 2)
                wsError = "binary message from the server";
            m_msg += pl;
            m_inMsg = !fin;
            if (fin) {
                messages.push_back(m_msg);
                in += m_msg;
                rxTotal += quint64(m_msg.size());
                m_msg.clear();
            }
            break;
        case 8: {
            if (!m_closing) {
                m_closing = true;
                WsMode m;
                m.opcode = 8;
                sendWs(pl.left(2), m);
                txTotal -= quint64(pl.left(2).size());
            }
            break;
        }
        case 9: {
            WsMode m;
            m.opcode = 10;
            sendWs(pl, m);
            txTotal -= quint64(pl.size());
            break;
        }
        case 10:
            pongs++;
            break;
        default:
            wsError = "unknown opcode";
        }
    }
}

void Peer::sendWs(const QByteArray &payload, const WsMode &mode)
{
    QByteArray out;
    std::vector<int> cuts = mode.cuts;
    cuts.push_back(payload.size());
    int pos = 0, k = 0;
    auto frame = [&](int op, bool fin, const QByteArray &pl) {
        out.append(char((fin ? 0x80 : 0) | (mode.rsv ? 0x40 : 0) | op));
        int m = mode.mask ? 0x80 : 0;
        if (pl.size() < 126) {
            out.append(char(m | pl.size()));
        } else if (pl.size() < 65536) {
            out.append(char(m | 126)).append(char(pl.size() >> 8)).append(char(pl.size() & 0xff));
        } else {
            out.append(char(m | 127));
            for (int i = 7; i >= 0; i--)
                out.append(char(quint64(pl.size()) >> (8 * i) & 0xff));
        }
        if (mode.mask) {
            m_maskCounter = m_maskCounter * 1664525u + 1013904223u;
            unsigned char key[4] = {(unsigned char)(m_maskCounter >> 24), (unsigned char)(m_maskCounter >> 16), (unsigned char)(m_maskCounter >> 8), (unsigned char) m_maskCounter};
            out.append(reinterpret_cast<char *>(key), 4);
            QByteArray x = pl;
            for (int i = 0; i < x.size(); i++)
                x[i] = char(x[i] ^ key[i & 3]);
            out.append(x);
        } else {
            out.append(pl);
        }
    };
    for (size_t i = 0; i < cuts.size(); i++) {
        int end = std::max(pos, std::min(cuts[i], payload.size()));
        bool fin = i + 1 == cuts.size();
        frame(k == 0 ? mode.opcode : 0, fin, payload.mid(pos, end - pos));
        if (k == mode.pingAfter && !fin)
            frame(9, true, "hi");
        pos = end;
        k++;
    }
    txTotal += quint64(payload.size());
    wire(out);
}

void Peer::send(const QByteArray &chunk)
{
    if (m_tr == Tr::Ws && !rawMode) {
        sendWs(chunk, WsMode());
    } else {
        txTotal += quint64(chunk.size());
        wire(chunk);
    }
}

void Peer::sendWire(const QByteArray &raw)
{
    wire(raw);
}

void Peer::sendPlain(const QByteArray &raw)
{
    if (m_fd >= 0 && ::send(m_fd, raw.constData(), size_t(raw.size()), MSG_NOSIGNAL) < 0) { }
}

void Peer::shutdownWrite()
{
    if (m_fd >= 0)
        shutdown(m_fd, SHUT_WR);
}

void Peer::close()
{
    if (m_fd < 0)
        return;
    if (m_tr == Tr::Ws && m_wsDone && !m_closed && !m_closing && !rawMode) {
        m_closing = true;
        WsMode m;
        m.opcode = 8;
        sendWs(QByteArray("\x03\xe8", 2), m);
    }
    if (m_ssl && m_tlsDone && !m_closed) {
        ERR_clear_error();
        SSL_shutdown(m_ssl);
    }
    if (m_ssl) {
        SSL_free(m_ssl);
        m_ssl = nullptr;
    }
    ::close(m_fd);
    m_fd = -1;
    m_closed = true;
}

void Peer::reset()
{
    if (m_fd < 0)
        return;
    if (m_tr != Tr::Unix) {
        struct linger l = {1, 0};
        setsockopt(m_fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    }
    if (m_ssl) {
        SSL_free(m_ssl);
        m_ssl = nullptr;
    }
    ::close(m_fd);
    m_fd = -1;
    m_closed = true;
}
