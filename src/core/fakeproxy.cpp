#include "fakeproxy.h"
#include "sut.h"
#include <QCryptographicHash>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/sockios.h>
#include <netinet/tcp.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <unistd.h>

static SSL_CTX *serverCtx()
{
    static SSL_CTX *c = nullptr;
    if (!c) {
        c = SSL_CTX_new(TLS_server_method());
        SSL_CTX_use_certificate_file(c, (Sut::dataDir() + "/cert.pem").toLocal8Bit().constData(), SSL_FILETYPE_PEM);
        SSL_CTX_use_PrivateKey_file(c, (Sut::dataDir() + "/key.pem").toLocal8Bit().constData(), SSL_FILETYPE_PEM);
        SSL_CTX_set_mode(c, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
    }
    return c;
}

Link::Link(int fd, Tr tr, bool tls) : m_fd(fd), m_tr(tr)
{
    fcntl(m_fd, F_SETFL, fcntl(m_fd, F_GETFL) | O_NONBLOCK);
    int one = 1;
    setsockopt(m_fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    if (tls) {
        m_ssl = SSL_new(serverCtx());
        SSL_set_fd(m_ssl, m_fd);
        SSL_set_accept_state(m_ssl);
    } else if (tr == Tr::Tcp) {
        m_ready = true;
    }
}

Link::~Link()
{
    if (m_ssl)
        SSL_free(m_ssl);
    if (m_fd >= 0)
        ::close(m_fd);
}

bool Link::idle() const
{
    if (m_fd < 0 || m_closed)
        return true;
    int n = 0;
    if (ioctl(m_fd, SIOCOUTQ, &n) == 0 && n > 0)
        return false;
    return m_out.isEmpty();
}

void Link::flush()
{
    if (m_fd < 0 || m_closed || (m_ssl && !m_tlsDone))
        return;
    while (!m_out.isEmpty()) {
        ssize_t n;
        if (m_ssl) {
            ERR_clear_error();
            n = SSL_write(m_ssl, m_out.constData(), m_out.size());
        } else {
            n = ::send(m_fd, m_out.constData(), size_t(m_out.size()), MSG_NOSIGNAL);
            if (n < 0 && errno != EAGAIN && errno != EINTR) {
                m_out.clear();
                return;
            }
        }
        if (n <= 0)
            return;
        m_out.remove(0, int(n));
    }
}

bool Link::io()
{
    if (m_fd < 0 || m_closed)
        return false;
    bool moved = false;
    if (m_ssl && !m_tlsDone) {
        ERR_clear_error();
        int r = SSL_do_handshake(m_ssl);
        if (r != 1) {
            int e = SSL_get_error(m_ssl, r);
            if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) {
                m_closed = true;
                return true;
            }
            return false;
        }
        m_tlsDone = true;
        moved = true;
        if (m_tr == Tr::Tcp)
            m_ready = true;
    }
    if (!m_out.isEmpty()) {
        int before = m_out.size();
        flush();
        moved |= m_out.size() != before;
    }
    if (paused)
        return moved;
    char buf[65536];
    for (;;) {
        ssize_t n;
        if (m_ssl) {
            ERR_clear_error();
            int r = SSL_read(m_ssl, buf, sizeof buf);
            if (r <= 0) {
                int e = SSL_get_error(m_ssl, r);
                if (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE)
                    break;
                n = 0;
            } else {
                n = r;
            }
        } else {
            n = recv(m_fd, buf, sizeof buf, 0);
            if (n < 0) {
                if (errno == EAGAIN || errno == EINTR)
                    break;
                n = 0;
            }
        }
        int one = 1; // or Nagle's algorithm on the other side waits for a delayed ACK
        setsockopt(m_fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
        moved = true;
        if (n == 0) {
            m_closed = true;
            break;
        }
        if (m_tr == Tr::Ws) {
            m_raw += QByteArray(buf, int(n));
            parse();
        } else {
            in += QByteArray(buf, int(n));
        }
    }
    return moved;
}

void Link::parse()
{
    if (!m_wsDone) {
        int p = m_raw.indexOf("\r\n\r\n");
        if (p < 0)
            return;
        QByteArray key;
        for (const QByteArray &l : m_raw.left(p).split('\n')) {
            int c = l.indexOf(':');
            if (c > 0 && l.left(c).trimmed().toLower() == "sec-websocket-key")
                key = l.mid(c + 1).trimmed();
        }
        m_raw.remove(0, p + 4);
        QByteArray accept = QCryptographicHash::hash(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11", QCryptographicHash::Sha1).toBase64();
        m_out += "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + accept + "\r\n\r\n";
        m_wsDone = true;
        m_ready = true;
        flush();
    }
    for (;;) {
        const unsigned char *b = reinterpret_cast<const unsigned char *>(m_raw.constData());
        qint64 have = m_raw.size();
        if (have < 2)
            return;
        qint64 len = b[1] & 0x7f, hdr = 2;
        if (len == 126) {
            if (have < 4)
                return;
            len = b[2] << 8 | b[3];
            hdr = 4;
        } else if (len == 127) {
            if (have < 10)
                return;
            len = 0;
            for (int i = 2; i < 10; i++)
                len = len << 8 | b[i];
            hdr = 10;
        }
        bool masked = b[1] & 0x80;
        if (!masked)
            error = "client frame is not masked";
        if (have < hdr + 4 + len)
            return;
        unsigned char key[4];
        memcpy(key, b + hdr, 4);
        int op = b[0] & 15;
        bool fin = b[0] & 0x80;
        QByteArray pl = m_raw.mid(int(hdr + 4), int(len));
        for (int i = 0; i < pl.size(); i++)
            pl[i] = char(pl[i] ^ key[i & 3]);
        m_raw.remove(0, int(hdr + 4 + len));
        switch (op) {
        case 0:
        case 1:
        case 2:
            if (op == 2)
                error = "binary message";
            m_msg += pl;
            if (fin) {
                messages.push_back(m_msg);
                in += m_msg;
                m_msg.clear();
            }
            break;
        case 8:
            if (!m_closing) {
                m_closing = true;
                m_out += frame(8, true, pl.left(2));
                flush();
            }
            break;
        case 9:
            m_out += frame(10, true, pl);
            flush();
            break;
        default:
            break;
        }
    }
}

QByteArray Link::frame(int op, bool fin, const QByteArray &pl) const
{
    QByteArray out;
    out.append(char((fin ? 0x80 : 0) | op));
    if (pl.size() < 126) {
        out.append(char(pl.size()));
    } else if (pl.size() < 65536) {
        out.append(char(126)).append(char(pl.size() >> 8)).append(char(pl.size() & 0xff));
    } else {
        out.append(char(127));
        for (int i = 7; i >= 0; i--)
            out.append(char(quint64(pl.size()) >> (8 * i) & 0xff));
    }
    return out + pl;
}

void Link::send(const QByteArray &chunk)
{
    m_out += m_tr == Tr::Ws ? frame(1, true, chunk) : chunk;
    flush();
}

void Link::sendMessages(const std::vector<QByteArray> &msgs, Src *cuts)
{
    int before = m_out.size();
    for (const QByteArray &m : msgs) {
        if (m_tr != Tr::Ws) {
            m_out += m;
            continue;
        }
        int pos = 0, k = 0;
        while (cuts && pos < m.size() - 1 && k < 4 && cuts->chance(1, 4)) { // no empty fragments: QWebSocket stumbles over those inside a character
            int n = cuts->range(1, m.size() - pos - 1);
            m_out += frame(k ? 0 : 1, false, m.mid(pos, n));
            if (cuts->chance(1, 4))
                m_out += frame(9, true, "p");
            pos += n;
            k++;
        }
        m_out += frame(k ? 0 : 1, true, m.mid(pos));
    }
    if (getenv("VRP_WIRE"))
        fprintf(stderr, "wire %s\n", m_out.mid(before).toHex().constData());
    flush();
}

void Link::close()
{
    if (m_fd < 0)
        return;
    flush();
    if (m_tr == Tr::Ws && m_wsDone && !m_closed && !m_closing) {
        m_out += frame(8, true, QByteArray("\x03\xe8", 2));
        flush();
    }
    if (m_ssl && m_tlsDone && !m_closed) {
        ERR_clear_error();
        SSL_shutdown(m_ssl);
    }
    if (m_ssl) {
        SSL_free(m_ssl);
        m_ssl = nullptr;
    }
    ::close(m_fd);
    m_fd = -1;
    m_closed = true;
}

void Link::reset()
{
    if (m_fd < 0)
        return;
    struct linger l = {1, 0};
    setsockopt(m_fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    if (m_ssl) {
        SSL_free(m_ssl);
        m_ssl = nullptr;
    }
    ::close(m_fd);
    m_fd = -1;
    m_closed = true;
}

bool FakeProxy::listen(int port)
{
    stop();
    m_fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
    int one = 1;
    setsockopt(m_fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_port = htons(quint16(port));
    inet_pton(AF_INET, "127.0.0.1", &a.sin_addr);
    if (bind(m_fd, (struct sockaddr *) &a, sizeof a) != 0 || ::listen(m_fd, 50) != 0) {
        ::close(m_fd);
        m_fd = -1;
        return false;
    }
    m_port = port;
    return true;
}

void FakeProxy::stop()
{
    if (m_fd >= 0)
        ::close(m_fd);
    m_fd = -1;
}

bool FakeProxy::io()
{
    bool moved = false;
    while (m_fd >= 0) {
        int c = accept4(m_fd, nullptr, nullptr, SOCK_CLOEXEC);
        if (c < 0)
            break;
        links.push_back(std::make_unique<Link>(c, m_tr, m_tls));
        moved = true;
    }
    for (auto &l : links)
        moved |= l->io();
    return moved;
}
