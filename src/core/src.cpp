#include "src.h"
#include <cstdio>
#include <cstring>

uint64_t mix64(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

uint64_t Src::next()
{
    m_rng += 0x9E3779B97F4A7C15ull;
    uint64_t x = m_rng;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

uint64_t Src::draw(uint64_t n)
{
    uint64_t v;
    if (n <= 1) {
        return 0;
    }
    if (m_replay) {
        v = m_pos < m_in.size() ? m_in[m_pos] % n : 0;
        m_pos++;
    } else {
        v = next() % n;
    }
    m_out.push_back(v);
    if (m_shm && m_out.size() <= SharedTape::Max) {
        m_shm->tape[m_out.size() - 1] = v;
        m_shm->len = uint32_t(m_out.size());
    }
    return v;
}

int Src::weighted(const std::vector<int> &w)
{
    int sum = 0;
    for (int x : w)
        sum += x;
    int v = int(draw(sum));
    for (size_t i = 0; i < w.size(); i++) {
        if (v < w[i])
            return int(i);
        v -= w[i];
    }
    return 0;
}

int Src::size(int max)
{
    if (max <= 0)
        return 0;
    switch (weighted({4, 6, 5, 3, 1})) {
    case 0: return range(0, std::min(max, 3));
    case 1: return range(0, std::min(max, 16));
    case 2: return range(0, std::min(max, 100));
    case 3: return range(0, std::min(max, 1500));
    default: return range(0, max);
    }
}

QByteArray Src::bytes(int n)
{
    QByteArray b;
    b.reserve(n);
    static const unsigned char special[] = {0xC0, 0xDB, 0xDC, 0xDD, 0x00, 0xFF, 0x0A, '}', '{', '"', '\\', 0x80};
    for (int i = 0; i < n; i++) {
        uint64_t v = draw(512);
        b.append(v < 256 ? char(v) : char(special[(v - 256) % sizeof(special)]));
    }
    return b;
}

QByteArray Src::large(int max, bool utf8)
{
    int n;
    switch (weighted({3, 3, 2})) {
    case 0: n = range(1500, max); break;
    case 1: n = (1 << range(11, 31 - __builtin_clz(unsigned(max)))) + range(-20, 20); break; // at powers of two
    default: n = max - range(0, 100); break;
    }
    n = std::min(n, max);
    QByteArray b;
    b.reserve(n + 200);
    if (utf8) {
        QByteArray blk = unicode(40).toUtf8() + "#";
        for (int k = 0; b.size() < n; k++)
            b += blk + QByteArray::number(k);
        return b;
    }
    QByteArray blk = bytes(64);
    while (b.size() < n) {
        int k = b.size();
        blk[0] = char(k >> 6);
        blk[1] = char(k >> 14);
        b += blk;
    }
    b.truncate(n);
    return b;
}

QByteArray Src::payload(int max)
{
    if (max >= 20000 && chance(1, 2))
        return large(max);
    int n = size(max);
    switch (weighted({3, 4, 2, 2, 2})) {
    case 0: { // printable
        QByteArray b;
        for (int i = 0; i < n; i++)
            b.append(char('a' + draw(26)));
        return b;
    }
    case 1: // arbitrary
        if (n > 400) { // cheap on the tape: repeat a block and stamp positions
            QByteArray blk = bytes(64), b;
            while (b.size() < n) {
                QByteArray c = blk;
                int k = b.size();
                c[0] = char(k >> 6);
                c[1] = char(k >> 14);
                b += c;
            }
            b.truncate(n);
            return b;
        }
        return bytes(n);
    case 2: { // runs of control bytes
        static const char ctl[] = {char(0xC0), char(0xDB), char(0xDC), char(0xDD)};
        QByteArray b;
        for (int i = 0; i < std::min(n, 200); i++)
            b.append(ctl[draw(4)]);
        return b;
    }
    case 3: { // JSON-looking lines
        static const std::vector<QByteArray> parts = {"{\"id\":1,\"method\":\"RemoteProxy.Hello\"}\n", "}\n{", "}", "{", "\n",
            "{\"id\":2,\"method\":\"TunnelProxy.Ping\",\"params\":{\"timestamp\":1}}\n", "{\"id\":0,\"notification\":\"TunnelProxy.ClientDisconnected\",\"params\":{\"socketAddress\":1}}\n", " "};
        QByteArray b;
        int k = range(1, 5);
        for (int i = 0; i < k; i++)
            b += pick(parts);
        return b.left(std::max(max, 1));
    }
    default: // SLIP-looking
    {
        QByteArray b;
        int k = range(1, 6);
        for (int i = 0; i < k; i++) {
            b.append(char(0)).append(char(draw(4)));
            b += bytes(int(draw(6)));
            b.append(char(0xC0));
        }
        return b.left(std::max(max, 1));
    }
    }
}

QString Src::unicode(int max)
{
    int n = std::min(size(max), max);
    QString s;
    for (int i = 0; i < n; i++) {
        switch (weighted({10, 3, 3, 1, 1, 1})) {
        case 0: s += QChar(ushort('a' + draw(26))); break;
        case 1: { static const char sp[] = " \"\\/{}[]:,\n\t'\r."; s += QLatin1Char(sp[draw(sizeof(sp) - 1)]); break; }
        case 2: s += QChar(ushort(0xA1 + draw(0x500))); break;
        case 3: s += QChar(ushort(0x2013 + draw(0x1000))); break;
        case 4: { uint cp = uint(0x1F300 + draw(0x300)); s += QString::fromUcs4(&cp, 1); break; }
        default: s += QChar(ushort(1 + draw(31))); break;
        }
    }
    return s;
}

QByteArray Src::utf8Text(int max)
{
    if (max >= 20000 && chance(1, 2))
        return large(max, true);
    int n = size(max);
    if (n > 600) {
        QByteArray blk = unicode(40).toUtf8() + "#", b;
        int k = 0;
        while (b.size() < n)
            b += blk + QByteArray::number(k++);
        return b;
    }
    return unicode(n).toUtf8();
}

void Src::beginSpan()
{
    m_open.push_back(uint32_t(m_out.size()));
}

void Src::endSpan()
{
    uint32_t b = m_open.back();
    m_open.pop_back();
    if (m_shm && m_shm->spanCount < 65536 && m_out.size() > b) {
        m_shm->spans[2 * m_shm->spanCount] = b;
        m_shm->spans[2 * m_shm->spanCount + 1] = uint32_t(m_out.size());
        m_shm->spanCount++;
    }
}

void Ctx::fail(const std::string &cat, const QString &msg)
{
    throw Violation{cat, msg.toStdString()};
}

void Ctx::abandon(const std::string &why)
{
    throw Abandon{why};
}

void Ctx::trace(const QString &line)
{
    QByteArray u = line.toUtf8();
    for (char c : u) {
        traceHash ^= uint8_t(c);
        traceHash *= 1099511628211ull;
    }
    traceHash ^= '\n';
    traceHash *= 1099511628211ull;
    if (traceText.size() < 6000)
        traceText += line + "\n";
    if (verbose) {
        fprintf(stderr, "  %s\n", u.constData());
    }
}

void Ctx::resetCase()
{
    traceText.clear();
    traceHash = 1469598103934665603ull;
    isNontrivial = false;
}

QString hexs(const QByteArray &b, int max)
{
    if (b.size() <= max)
        return QString("%1:").arg(b.size()) + QString::fromLatin1(b.toHex());
    return QString("%1:").arg(b.size()) + QString::fromLatin1(b.left(max).toHex()) + "...";
}
